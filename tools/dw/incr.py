"""Propagation gives the value a computation from scratch gives (P04).

For each node whose value is a function of its operands' current values, the transfer function of one reported
operand change is extracted from propagate() (per path of the loop over the operand's change list) and compared
with the function initialize_state() computes. The comparison is an induction step: from state = value before the
change, one change (old -> new, an element appended, an element removed) must lead to value after the change, for
all small values of the operands and of the remaining elements; a change list that a path does not look at, or a
loop that stops early, must be covered by a full recomputation on that path."""
import functools
import itertools
import math
import random
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods, paths_of, is_state
from .graphp import where, lw
from . import finite
from .finite import Unknown, canon, num
from .transfer import Play, Op, It, Opt, Outside
import re

DATA = ("data", ("this",))
THIS = ("this",)
NAN = float("nan")
GONE = object()


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return float(a) == float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("load", "rng") and len(t) > 1:
        t = t[1]
    return t


def on(t, name):
    """operand X when t is the result of X->name(state)"""
    t = canon(t)
    if t[0] == "deref" and t[1][0] == "app" and t[1][1] == name:
        return t[1][2]
    return None


class Env:
    """evaluation of terms; look: canonical term -> value or None"""

    def __init__(self, look, ints=False):
        self.look = look
        self.ints = ints

    def __call__(self, t):
        v = self.look(t)
        if v is GONE:
            raise Unknown(t)
        if v is not None:
            return v
        if t[0] != "app":
            if t[0] == "pos":
                return None
            return None
        n, a = t[1], t[3]
        if n == "isnan":
            x = strip(a[0])
            v = self.look(x)
            if v is GONE:
                return True
            v = self.num(x)
            return v != v
        if n in ("isinf", "isfinite", "signbit"):
            v = self.num(strip(a[0]))
            return {"isinf": math.isinf(v), "isfinite": math.isfinite(v), "signbit": math.copysign(1, v) < 0}[n]
        if n in ("/", "%") and len(a) == 2:
            x, y = self.num(a[0]), self.num(a[1])
            if self.ints and isinstance(x, int) and isinstance(y, int):
                if y == 0:
                    raise Unknown(t)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if n == "/" else x - q * y
            if n == "%":
                return math.fmod(x, y) if y else NAN
            if y == 0:
                return NAN if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            return x / y
        if n in ("fmod", "remainder") and len(a) == 2:
            x, y = self.num(strip(a[0])), self.num(strip(a[1]))
            return math.fmod(x, y) if y and not math.isinf(x) else NAN
        if n == "sqrt":
            x = self.num(strip(a[0]))
            return math.sqrt(x) if x >= 0 else NAN
        if n in ("pow",) and len(a) == 2:
            x, y = self.num(strip(a[0])), self.num(strip(a[1]))
            r = x ** y
            if isinstance(r, complex):
                raise Unknown(t)
            return r
        if n in ("abs", "fabs", "floor", "ceil", "round", "trunc") and len(a) == 1:
            x = self.num(strip(a[0]))
            if x != x or math.isinf(x):
                return abs(x) if "abs" in n else x
            return {"abs": abs, "fabs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
                    "round": lambda y: math.copysign(math.floor(abs(y) + 0.5), y)}[n](x)
        return None

    def num(self, t):
        return num(finite._ev(t, self))

    def val(self, t):
        return finite._ev(canon(t), self)

    def holds(self, conds):
        """True / False / None when some condition is not understood (and none is false)"""
        unk = False
        for c in conds:
            try:
                if not self.val(c):
                    return False
            except (Unknown, ZeroDivisionError, OverflowError, TypeError, RecursionError):
                unk = True
        return None if unk else True


# ------------------------------------------------------------------------------------------ functors

STD = {"plus": lambda a, b: a + b, "minus": lambda a, b: a - b, "multiplies": lambda a, b: a * b,
       "divides": lambda a, b: a / b if b else (NAN if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)),
       "logical_and": lambda a, b: float(bool(a) and bool(b)), "logical_or": lambda a, b: float(bool(a) or bool(b)),
       "logical_not": lambda a: float(not a), "negate": lambda a: -a, "equal_to": lambda a, b: float(a == b),
       "less_equal": lambda a, b: float(a <= b), "less": lambda a, b: float(a < b), "not_equal_to": lambda a, b: float(a != b),
       "greater": lambda a, b: float(a > b), "greater_equal": lambda a, b: float(a >= b), "modulus": lambda a, b: math.fmod(a, b)}

ORACLE = {"abs": abs, "logical": lambda a: float(bool(a)), "logical_xor": lambda a, b: float(bool(a) != bool(b)), "max": max, "min": min,
          "modulus": lambda a, b: 0.0 if b == 0 else a % b, "square": lambda a: a * a, "square_root": lambda a: math.sqrt(a) if a >= 0 else NAN}


def meaning(p, t):
    """what an operation is to compute: from its name if that is a known one, else from its definition"""
    base = t.split("<")[0].split("::")[-1]
    return STD.get(base) if t.startswith("std::") else ORACLE.get(base) or functor(p, t)


_fun = {}


def functor(p, t):
    """function of numbers computed by function object type t, or None"""
    if t in _fun:
        return _fun[t]
    r = None
    base = t.split("<")[0]
    if base.startswith("std::"):
        r = STD.get(base[5:])
    else:
        for f in p.methods_of(t) or p.methods_of(NS + t):
            if f["n"] != "operator()":
                continue
            pas = paths_of(p, f, t)
            if not pas:
                continue
            names = [x["n"] for x in f["params"]]

            memo = {}

            def r(*xs, pas=pas, names=names, memo=memo):
                if xs in memo:
                    return memo[xs]
                env = dict(zip(names, xs))
                e = Env(lambda z: env.get(z[1]) if len(z) == 2 and z[0] == "param" else env.get(z[2]) if len(z) == 3 and z[0] == "var" else None)
                hit = [q for q in pas if e.holds(q.conds)]
                if len(hit) != 1 or hit[0].end[0] != "ret":
                    raise Unknown(t)
                memo[xs] = float(num(e.val(hit[0].end[1])))
                return memo[xs]
            break
    _fun[t] = r
    return r


def targ(cls):
    i = cls.index("<")
    return cls[i + 1:cls.rindex(">")].strip()


# ------------------------------------------------------------------------------------------ reductions

def leaves(t, pre=()):
    if t[0] == "obj":
        for f, x in t[2]:
            yield from leaves(x, pre + (f,))
    else:
        yield pre, t


def leaf_of(loc):
    """member path below the node's state data"""
    out = []
    t = loc
    while t[0] == "mem" and t != DATA:
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out)) if t == DATA and out else None


def made(pa):
    """the state object an initialize_state path stores"""
    for e in pa.events:
        if e.k == "w" and e.val is not None and e.val[0] == "new" and e.loc[0] == "idx":
            return e.val
    return None


def method(p, cls, name):
    for (n, pt), f in sorted(node_methods(p, cls).items()):
        if n == name and len(pt) >= 1 and is_state(pt[0].rstrip("& ").replace("const ", "")):
            return f
    return None


class Folds:
    """what initialize_state computes: a fold over the elements of one operand"""

    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        f = method(p, cls, "initialize_state")
        self.paths = [q for q in (paths_of(p, f, cls) or []) if q.end[0] in ("fall", "ret")]
        self.optional = {fd["n"] for b, fd in p.fields(cls) if "std::optional" in fd["t"]}
        self.operand = None
        self.leafs = set()
        for q in self.paths:
            o = made(q)
            if o is None:
                raise Unknown("no state made")
            for l, t in leaves(o[2]):
                self.leafs.add(l)
            for z in subterms(canon(tuple(q.conds) + (o,))):
                x = on(z, "view") if isinstance(z, tuple) and z and z[0] == "deref" else None
                if x is not None:
                    self.operand = x
            for e in q.events:
                if e.k == "loop" and e.x["range"] is not None and on(e.x["range"], "view"):
                    self.operand = on(e.x["range"], "view")
        if self.operand is None:
            raise Unknown("no operand")

    def look(self, init, elems, extra=None):
        def f(t):
            if extra is not None:
                v = extra(t)
                if v is not None:
                    return v
            if len(t) == 3 and t[0] == "mem" and t[1] == THIS and t[2] in self.optional:
                return init if init is not None else GONE
            if t[0] == "app" and t[1] == "value_or" and len(t[3]) == 2 and self.opt(t[3][0]):
                return init if init is not None else num(finite._ev(t[3][1], Env(self.look(init, elems, extra))))
            if t[0] == "app" and t[1] in ("reduce", "accumulate") and len(t[3]) == 3:
                return self.reduced(t, init, elems, extra)
            if t[0] == "idx" and on(t[1], "view") == self.operand and t[2][0] == "lit":
                return elems[t[2][1]] if t[2][1] < len(elems) else GONE
            if t[0] == "size" and on(t[1], "view") == self.operand:
                return len(elems)
            return None
        return f

    def opt(self, t):
        t = strip(t)
        return len(t) == 3 and t[0] == "mem" and t[1] == THIS and t[2] in self.optional

    def reduced(self, t, init, elems, extra):
        r, s, fn = t[3]
        r = strip(r)
        n = 0
        while r[0] in ("drop", "take"):
            if r[0] == "take" or r[2][0] != "lit":
                raise Unknown(t)
            n += r[2][1]
            r = strip(r[1])
        if on(r, "view") != self.operand or fn[0] != "obj":
            raise Unknown(t)
        F = functor(self.p, fn[1])
        if F is None:
            raise Unknown(t)
        acc = num(finite._ev(s, Env(self.look(init, elems, extra))))
        for x in elems[n:]:
            acc = F(acc, x)
        return acc

    def holds(self, env, conds, init):
        cs = []
        for c in conds:
            c = canon(c)
            neg_ = c[0] == "not"
            b = c[1] if neg_ else c
            if b[0] == "tr":
                b = b[1]
            if self.opt(b):
                if (init is not None) == neg_:
                    return False
                continue
            cs.append(c)
        return env.holds(cs)

    def fold(self, init, elems):
        """{member path: value} after initialisation with these elements"""
        for q in self.paths:
            env = Env(self.look(init, elems))
            loops = [e for e in q.events if e.k == "loop" and e.x["range"] is not None and on(e.x["range"], "view") == self.operand]
            others = [e for e in q.events if e.k == "loop" and e not in loops]
            if len(loops) > 1 or others:
                raise Unknown("loops of initialize_state")
            h = self.holds(env, q.conds, init)
            if h is False:
                continue
            if h is None:
                raise Unknown(q.conds)
            res = {}
            if loops:
                L = loops[0]
                acc = {v: num(env.val(a[1])) for v, a in L.x["acc"].items() if v[2] != "state"}
                if any(e.k in ("w", "push", "cont") and leaf_of(e.loc) is None for r in L.x["paths"] for e in r.events):
                    raise Unknown("effects of the loop")
                for x in elems:
                    def extra(t, acc=acc, x=x):
                        if t[0] in ("hav", "havi"):
                            for v, a in L.x["acc"].items():
                                if canon(a[0]) == t and v in acc:
                                    return acc[v]
                        if t == ("idx", canon(L.x["range"]), ("k", L.x["id"])):
                            return x
                        return None
                    e2 = Env(self.look(init, elems, extra))
                    hit = [r for r in L.x["paths"] if e2.holds(r.conds) is not False]
                    if len(hit) != 1 or e2.holds(hit[0].conds) is None or hit[0].end[0] not in ("normal", "continue"):
                        raise Unknown("paths of the loop of initialize_state")
                    r = hit[0]
                    acc = {v: num(e2.val(r.st.store[v])) if v in r.st.store else acc[v] for v in acc}
                fin = {canon(L.x["acc"][v][2]): acc[v] for v in acc}
                env = Env(self.look(init, elems, lambda t: fin.get(t)))
            for l, t in leaves(made(q)[2]):
                try:
                    res[l] = num(env.val(t))
                except Unknown:
                    pass
            return res
        raise Unknown("no path of initialize_state")


def loops_over(events, what, operand):
    """loops over operand's change list / elements, at any depth: (loop, enclosing)"""
    for e in events:
        if e.k == "loop":
            r = e.x["range"]
            while r is not None and r[0] == "tview":
                r = r[1]
            if r is not None and on(r, what) == operand:
                yield e


class Step:
    """one run of propagate over a list of changes, on values"""

    def __init__(self, fo, pas, commits):
        self.fo, self.pas, self.commits = fo, pas, commits

    def run(self, pre, init, changes, after):
        """-> list of possible final {leaf: value}; raises Unknown"""
        fo = self.fo
        outs = []
        for q in self.pas:
            L = list(loops_over(q.events, "diff", fo.operand))
            n = len(changes)

            def sized(t):
                if t[0] == "size" and on(t[1], "diff") == fo.operand:
                    return n
                return None
            if len(L) > 1:
                raise Unknown("several loops")
            mem = dict(pre)
            havs = {}
            if L:
                L = L[0]
                acc = {}
                for v, a in L.x["acc"].items():
                    if v[2] == "state":
                        continue
                    acc[v] = finite._ev(canon(a[1]), Env(fo.look(init, after)))
                for old, new in changes:
                    def extra(t, old=old, new=new):
                        if t[0] in ("hav", "havi"):
                            for v, a in L.x["acc"].items():
                                if canon(a[0]) == t and v in acc:
                                    return acc[v]
                        if t[0] == "mem" and t[1] == ("idx", canon(rbase(L.x["range"])), ("k", L.x["id"])):
                            v = {"old": old, "value": new}.get(t[2])
                            return v
                        l = leaf_of(t) if t[0] == "mem" else None
                        if l is not None and l in mem:
                            return mem[l]
                        return sized(t)
                    e2 = Env(fo.look(init, after, extra))
                    hs = [(r, fo.holds(e2, r.conds, init)) for r in L.x["paths"]]
                    if any(h is None for r, h in hs):
                        raise Unknown("conditions of a change")
                    hit = [r for r, h in hs if h]
                    if len(hit) != 1:
                        raise Unknown("paths of a change")
                    r = hit[0]
                    nm = dict(mem)
                    for e in r.events:
                        if e.k == "w" and leaf_of(e.loc) is not None:
                            nm[leaf_of(e.loc)] = num(e2.val(e.val))
                        elif e.k in ("w", "push", "cont", "loop", "algo"):
                            raise Unknown("effect in the loop")
                    na = dict(acc)
                    for v in acc:
                        if v in r.st.store:
                            na[v] = finite._ev(canon(r.st.store[v]), e2)
                    mem, acc = nm, na
                    if r.end[0] == "break":
                        break
                    if r.end[0] not in ("normal", "continue"):
                        raise Unknown("end of the loop")
                for v in acc:
                    havs[canon(L.x["acc"][v][2])] = acc[v]
                i = q.events.index(L)
                tail = q.events[i + 1:]
                head = q.events[:i]
                if any(e.k in ("w", "push", "cont") and leaf_of(e.loc) is not None for e in head):
                    raise Unknown("effects before the loop")
            else:
                tail = q.events

            def extra2(t):
                if t in havs:
                    return havs[t]
                l = leaf_of(t) if t[0] == "mem" else None
                if l is not None and l in mem:
                    return mem[l]
                return sized(t)
            e3 = Env(fo.look(init, after, extra2))
            h = fo.holds(e3, q.conds, init)
            if h is False:
                continue
            fin = dict(mem)
            for e in tail:
                if e.k == "w" and leaf_of(e.loc) is not None:
                    fin[leaf_of(e.loc)] = num(e3.val(e.val))
                elif e.k in ("push", "cont") and e.loc is not None and leaf_of(e.loc) is not None:
                    raise Unknown("container of the state")
                elif e.k == "loop" and any(x.k in ("w", "push", "cont") and x.loc is not None and leaf_of(x.loc) is not None for x in flat([e])):
                    raise Unknown("a second loop over the state")
            outs.append((fin, bool(L)))
        if not outs:
            raise Unknown("no path of propagate")
        return outs


def rbase(r):
    while r[0] == "tview":
        r = r[1]
    return r


def shown(x):
    return "nothing" if x is GONE else "%g" % x


def written(pas):
    out = set()
    for q in pas:
        for e in flat(q.events):
            if e.k == "w" and e.loc is not None and leaf_of(e.loc) is not None:
                out.add(leaf_of(e.loc))
    return out


def read_by(p, cls, name):
    out = set()
    for (n, pt), f in node_methods(p, cls).items():
        if n == name:
            for q in paths_of(p, f, cls) or []:
                if q.end[0] == "ret":
                    for z in subterms(canon(q.end[1])):
                        if isinstance(z, tuple) and z and z[0] == "mem":
                            l = leaf_of(z)
                            if l:
                                out.add(l)
    return out


def rule_reduce(ctx):
    R = "reduction-step"
    ctx.rule(R, "for every small multiset of remaining elements and initial value: the accumulators after propagating a list of one or two changes "
                "(element changed, appended, removed) equal those initialize_state computes for the changed elements", minimum=2)
    p = program()
    VALS = [0.0, 1.0, -1.0, 2.0, 3.0, 0.5]
    for cls in concrete_nodes(p):
        if not short(cls).startswith("ReduceNode<"):
            continue
        ctx.count("reduction nodes")
        name = short(cls)
        f = method(p, cls, "propagate")
        try:
            fo = Folds(p, cls)
            pas = [q for q in (paths_of(p, f, cls) or []) if q.end[0] in ("fall", "ret")]
        except (Unknown, KeyError, IndexError) as u:
            ctx.undecided(R, "%s: %s" % (name, str(u)[:80]))
            continue
        if not pas:
            ctx.undecided(R, name)
            continue
        fc = method(p, cls, "commit")
        saved = written([q for q in (paths_of(p, fc, cls) or [])]) if fc else set()
        st = Step(fo, pas, saved)
        want = (written(pas) | (read_by(p, cls, "buff") & fo.leafs)) - saved
        want = {l for l in want if l in fo.leafs}
        val = read_by(p, cls, "buff")
        want |= val & fo.leafs
        nok = nund = 0
        bad = None
        last = None

        def case(init, rest, changes_of):
            """changes_of: list of (old, new); elements before = rest + olds, after = rest + news"""
            nonlocal nok, nund, bad, last
            before = list(rest) + [o for o, n in changes_of if o is not GONE]
            aft = list(rest) + [n for o, n in changes_of if n is not GONE]
            try:
                pre = fo.fold(init, before)
                exp = fo.fold(init, aft)
                outs = st.run(pre, init, changes_of, aft)
                for fin, looked in outs:
                    for l in sorted(want):
                        if l not in exp or l not in fin:
                            raise Unknown("leaf")
                        if not close(fin[l], exp[l]):
                            bad = bad or (l, init, rest, changes_of, fin[l], exp[l], looked)
                nok += 1
            except (Unknown, KeyError, ZeroDivisionError, OverflowError, TypeError) as u:
                nund += 1
                last = u

        inits = [None, 0.0, 2.0, -3.0]
        for init in inits:
            for rest in [(), (1.0,), (0.0,), (2.0,), (-1.0, 2.0), (0.0, 1.0)]:
                for old in VALS + [GONE]:
                    for new in VALS + [GONE]:
                        if old is GONE and new is GONE or old is not GONE and old == new:
                            continue
                        if init is None and (not rest):
                            continue
                        case(init, rest, [(old, new)])
            if bad:
                break
            for rest in [(1.0,), (0.0,)]:
                for o1, n1 in [(0.0, 2.0), (2.0, 0.0), (3.0, 1.0), (GONE, 2.0), (2.0, GONE), (1.0, 3.0), (-1.0, 0.5)]:
                    for o2, n2 in [(0.0, 2.0), (2.0, 0.0), (3.0, 1.0), (GONE, 0.0), (3.0, GONE), (1.0, 3.0), (-1.0, 0.5)]:
                        case(init, rest, [(o1, n1), (o2, n2)])
        if bad:
            l, init, rest, ch, got, exp, looked = bad
            ctx.bad(R, "%s::propagate|%s" % (name, l[-1]), where(f),
                    "%s::propagate: with initial value %s, other elements %s and operand changes %s, %s becomes %g where initialize_state computes %g%s"
                    % (name, "none" if init is None else "%g" % init, [float(x) for x in rest], ", ".join("%s -> %s" % (shown(o), shown(n)) for o, n in ch),
                       ".".join(l), got, exp, "" if looked else " (the changes are not looked at on this path)"))
        elif nok and not nund:
            ctx.ok(R, "%s: %d single and double changes agree with initialize_state (%s)" % (name, nok, ", ".join(".".join(l) for l in sorted(want))))
        else:
            ctx.undecided(R, "%s: %d of %d changes not understood (%s)" % (name, nund, nok + nund, str(last)[:100]))


# ------------------------------------------------------------------------------------------ whole nodes

def changes(pre, fresh, dynamic=False):
    """small histories of one operand: (elements after, change list); fresh: values to write"""
    n = len(pre)
    x, y = fresh[0], fresh[1]
    out = [(list(pre), [])]

    def run(*steps):
        cur, diff = list(pre), []
        for s in steps:
            if s[0] == "set":
                if s[1] >= len(cur):
                    return
                diff.append((s[1], cur[s[1]], s[2]))
                cur[s[1]] = s[2]
            elif s[0] == "add":
                diff.append((len(cur), NAN, s[1]))
                cur.append(s[1])
            else:
                if not cur:
                    return
                diff.append((len(cur) - 1, cur.pop(), NAN))
        out.append((cur, diff))
    if n:
        run(("set", n - 1, x))
        run(("set", 0, x))
        run(("set", 0, x), ("set", 0, y))
        run(("set", 0, x), ("set", n - 1, y))
        run(("set", n - 1, x), ("set", n - 1, pre[n - 1]))
        run(*[("set", i, fresh[i % len(fresh)]) for i in reversed(range(n))])
    if dynamic:
        run(("add", x))
        run(("pop",))
        run(("add", x), ("add", y))
        run(("pop",), ("pop",))
        run(("set", 0, x), ("add", y))
        run(("pop",), ("add", y))
        run(("add", x), ("set", n, y))
        run(("pop",), ("set", 0, x))
        run(("set", 0, x), ("pop",), ("add", y), ("add", x))
        run(*([("pop",)] * n + [("add", y), ("add", x)]))
        run(*([("pop",)] * n + [("add", y), ("set", 0, x)]))
    return out


CAP = 600        # histories of one node kind in the quick check; a fixed sample

PALETTES = [([1.0, -2.0, 3.0], [5.0, 0.5, -4.0]), ([0.0, 2.0, 0.0], [1.0, 0.0, 3.0]), ([1.0, 1.0, 0.0], [0.0, 2.0, 1.0]), ([-3.0, 4.0, -1.0], [-2.0, -5.0, 2.0]), ([4.0, 4.0, 4.0], [4.0, 1.0, 4.0])]


def members_of(p, cls, ops, extra=()):
    """values of the node's members: pointers to arrays and containers of them, in the order they are declared"""
    m = {"operands_": list(ops), "predecessors_": list(ops), "successors_": [], "topological_index_": 5}
    left = list(ops)
    for b, f in p.fields(cls):
        t = f["t"].replace("const", "").strip()
        if re.search(r"\b(Array|ArrayNode) ?\* *>|\b(Array|ArrayNode) ?\* *,", t):
            m[f["n"]] = list(ops)
        elif re.search(r"\b(Array|ArrayNode) ?\*$", t) and left:
            m[f["n"]] = left.pop(0)
        elif "optional" in t:
            m.setdefault(f["n"], None)
    m.update(extra)
    return m


def scalars(o):
    """numbers of a state, in a comparable form"""
    if isinstance(o, dict):
        return {k: scalars(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [scalars(v) for v in o]
    if isinstance(o, bool):
        return float(o)
    return o


def alike(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isnum(a) and isnum(b):
        return close(a, b)
    raise Unknown("values %r %r" % (a, b))


class Model:
    """one kind of node: how to make its members and operands, and what its elements are"""

    def __init__(self, p, cls, cases, spec, result, base=None):
        self.p, self.cls, self.cases, self.spec, self.result, self.base = p, cls, cases, spec, result, base


def result_list(own):
    v = own.get("buffer", own.get("data"))
    if not isinstance(v, list):
        raise Unknown("no element buffer")
    return v


def result_scalar(own):
    for path in (("values", "value"), ("value",), ("update", "value")):
        o = own
        for k in path:
            o = o.get(k) if isinstance(o, dict) else None
        if isnum(o):
            return [o]
        if isinstance(o, dict):
            k = [x for x in ("value_", "value") if isnum(o.get(x))]
            if k:
                return [o[k[0]]]
    raise Unknown("no scalar")


def replay(before, changes):
    """the elements after a change list is applied to the elements before, or the first entry that is wrong"""
    cur = list(before)
    for n, c in enumerate(changes):
        i, o, v = c["index"], c["old"], c["value"]
        if o != o and v != v:
            continue                    # appended and removed again, or nothing
        if o != o:
            if i != len(cur):
                return None, "entry %d appends at %d where %d elements are there" % (n, i, len(cur))
            cur.append(v)
        elif v != v:
            if i != len(cur) - 1:
                return None, "entry %d removes element %d where %d elements are there" % (n, i, len(cur))
            if not close(cur[i], o):
                return None, "entry %d removes %g where element %d is %g" % (n, o, i, cur[i])
            cur.pop()
        else:
            if not 0 <= i < len(cur):
                return None, "entry %d is about element %d where %d elements are there" % (n, i, len(cur))
            if not close(cur[i], o):
                return None, "entry %d says element %d was %g, it was %g" % (n, i, o, cur[i])
            cur[i] = v
    return cur, None


def evaluate(ctx, R, p, cls, cases, spec, result, base, listed=None):
    """cases: iterable of (label, ops before, ops after, extra members); spec(ops, extra) -> elements.
    listed: None to judge the elements, else function of the node's state giving its change list, which is judged"""
    name = short(cls)
    f = method(p, cls, "propagate")
    fi = method(p, cls, "initialize_state")
    if f is None or fi is None:
        ctx.undecided(R, name)
        return
    pas = [q for q in (paths_of(p, f, cls) or []) if q.end[0] not in ("throw",)]
    pai = [q for q in (paths_of(p, fi, cls) or []) if q.end[0] not in ("throw",)]
    ok = und = oki = 0
    last = None
    bad = None
    badi = None
    fun = lambda t: functor(p, t)
    cases = list(cases)
    if ctx.tier == "quick" and len(cases) > CAP:
        cases = random.Random(7).sample(cases, CAP)
    ctx.count("histories", len(cases))
    for label, pre, cur, extra in cases:
        try:
            want = spec(cur, extra)
            before = spec(pre, extra)
        except (Unknown, TypeError, ValueError, OverflowError, ZeroDivisionError, RecursionError) as u:
            und += 1
            last = u
            continue
        if any(w != w or abs(w) == math.inf for w in want + before):
            continue
        own = None
        try:
            P = Play(members_of(p, cls, pre, extra), functors=fun)
            P.run(pai)
            if P.made is not None:
                got = result(P.made)
                if not alike(got, before):
                    badi = badi or (label, pre, cur, got, before)
                else:
                    own = P.made
                    oki += 1
        except (Unknown, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, IndexError) as u:
            last = last or u
        try:
            if own is None:
                own = base(pre, extra, before) if base else {"buffer": before, "updates": [], "previous_size_": len(before)}
            before = list(result(own))
            P = Play(members_of(p, cls, cur, extra), own, functors=fun)
            q = P.run(pas)
            if q is None:
                raise Unknown("no path")
            got = list(result(P.own))
            if listed is None:
                if not alike(got, want):
                    bad = bad or (label, pre, cur, "the node's elements become %s, computed from scratch they are %s" % (got, want))
            else:
                ch = listed(P.own)
                if not isinstance(ch, list) or not all(isinstance(c, dict) and isnum(c.get("index")) and isnum(c.get("old")) and isnum(c.get("value")) for c in ch):
                    raise Unknown("change list")
                end, wrong = replay(before, ch)
                if wrong is None and not alike(end, got):
                    wrong = "applied to the elements before, it gives %s" % end
                if wrong:
                    bad = bad or (label, pre, cur, "elements %s become %s and the node reports %s: %s"
                                  % (before, got, [(c["index"], c["old"], c["value"]) for c in ch], wrong))
            ok += 1
        except Outside as u:
            bad = bad or (label, pre, cur, "an access outside the %d elements of an operand or of the node (%s)" % (len(before), show(u.args[0])[:80]))
        except (Unknown, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, IndexError) as u:
            und += 1
            last = u
    if bad:
        label, pre, cur, what = bad
        ctx.bad(R, "%s::propagate" % name, where(f),
                "%s::propagate: %s: operands %s, reported changes %s: %s"
                % (name, label, [o.cur for o in cur], [[(d["index"], d["old"], d["value"]) for d in o.diff] for o in cur], what))
    elif badi and listed is None:
        label, pre, cur, got, want = badi
        ctx.bad(R, "%s::initialize_state" % name, where(fi), "%s::initialize_state: %s: operands %s: initial elements %s, expected %s"
                % (name, label, [o.cur for o in pre], got, want))
    elif ok and not und:
        ctx.ok(R, "%s: %d histories agree (initial state from the code in %d)" % (name, ok, oki))
    else:
        ctx.undecided(R, "%s: %d of %d histories not understood (%s)" % (name, und, ok + und, str(last)[:100]))


def unary_cases():
    for a, fr in PALETTES:
        for dyn in (False, True):
            for n in (1, 3):
                pre = a[:n]
                for cur, diff in changes(pre, fr, dyn):
                    yield "%s operand" % ("dynamic" if dyn else "fixed-size"), [Op(pre, dynamic=dyn)], [Op(cur, diff, dynamic=dyn)], {}


def positive(cases):
    for l, pre, cur, x in cases:
        def q(o):
            return Op([abs(v) for v in o.cur], [(d["index"], abs(d["old"]), abs(d["value"])) for d in o.diff], dynamic=o.dynamic, shape=o.shape)
        yield l, [q(o) for o in pre], [q(o) for o in cur], x


def binary_cases(nozero=False):
    def z(v):
        return [x if x != 0 or not nozero else 7.0 for x in v]
    for (a, fa), (b, fb) in [(PALETTES[0], PALETTES[1]), (PALETTES[1], PALETTES[0]), (PALETTES[2], PALETTES[2]), (PALETTES[1], PALETTES[2]), (PALETTES[3], PALETTES[1])]:
        b, fb = z(b), z(fb)
        ca, cb = changes(a[:2], fa), changes(b[:2], fb)
        for i, (x, dx) in enumerate(ca):
            for j, (y, dy) in enumerate(cb):
                if i > 2 and j > 2 and (i + j) % 3:
                    continue
                yield "equal shapes", [Op(a[:2]), Op(b[:2])], [Op(x, dx), Op(y, dy)], {}
        for dyn in (False, True):
            for n in (2, 3):
                for i, (x, dx) in enumerate(changes(a[:n], fa, dyn)):
                    for y, dy in changes(b[:1], fb)[:4]:
                        yield "second operand a single value", [Op(a[:n], dynamic=dyn), Op(b[:1], shape=())], [Op(x, dx, dynamic=dyn), Op(y, dy, shape=())], {}
                for i, (x, dx) in enumerate(changes(b[:n], fb, dyn)):
                    for y, dy in changes(a[:1], fa)[:4]:
                        yield "first operand a single value", [Op(a[:1], shape=()), Op(b[:n], dynamic=dyn)], [Op(y, dy, shape=()), Op(x, dx, dynamic=dyn)], {}
        for x, dx in changes(a[:1], fa)[:4]:
            for y, dy in changes(b[:1], fb)[:4]:
                yield "single values", [Op(a[:1], shape=()), Op(b[:1], shape=())], [Op(x, dx, shape=()), Op(y, dy, shape=())], {}
                yield "single values of different rank", [Op(a[:1], shape=(1,)), Op(b[:1], shape=())], [Op(x, dx, shape=(1,)), Op(y, dy, shape=())], {}


def zipped(F):
    def spec(ops, extra):
        m = max(len(o.cur) for o in ops) if all(len(o.cur) for o in ops) else 0
        cols = [o.cur if not (len(o.shape) == 0 or (o.shape == [1])) else o.cur * m for o in ops]
        return [float(F(*xs)) for xs in zip(*cols)]
    return spec


def nary_cases():
    for k in (1, 2, 3):
        for pals in ([0, 1, 2], [1, 2, 1], [2, 0, 1], [3, 3, 1]):
            data = [PALETTES[i] for i in pals[:k]]
            ch = [changes(a[:2], f) for a, f in data]
            combos = list(itertools.product(*[range(len(c)) for c in ch]))
            for n, co in enumerate(combos):
                if len(combos) > 60 and n % 5:
                    continue
                yield "%d operands" % k, [Op(a[:2]) for a, f in data], [Op(*ch[i][j]) for i, j in enumerate(co)], {}


def where_cases():
    for (a, fa), (b, fb) in [(PALETTES[0], PALETTES[1]), (PALETTES[1], PALETTES[0])]:
        for c, fc in [([1.0, 0.0, 1.0], [0.0, 1.0, 2.0]), ([0.0, 0.0, 2.0], [3.0, 1.0, 0.0])]:
            n = 3
            cc, ca, cb = changes(c[:n], fc), changes(a[:n], fa), changes(b[:n], fb)
            for i, (z, dz) in enumerate(cc):
                for j, (x, dx) in enumerate(ca):
                    for k, (y, dy) in enumerate(cb):
                        if min(i, j) and min(j, k) and min(i, k) and (i + 2 * j + k) % 4:
                            continue
                        yield "condition an array", [Op(c[:n]), Op(a[:n]), Op(b[:n])], [Op(z, dz), Op(x, dx), Op(y, dy)], {}
        for c in (1.0, 0.0, 2.0):
            for diff in ([], [(0, c, 1.0), (0, 1.0, 2.0)], [(0, c, 0.0), (0, 0.0, 0.0)], [(0, c, 0.0)], [(0, c, 1.0)], [(0, c, 0.0), (0, 0.0, 1.0)], [(0, c, 1.0), (0, 1.0, 0.0)], [(0, c, 3.0)]):
                z = diff[-1][2] if diff else c
                for dyn in (False, True):
                    ca, cb = changes(a[:2], fa, dyn), changes(b[:2] + ([9.0] if dyn else []), fb, dyn)
                    for i, (x, dx) in enumerate(ca):
                        for j, (y, dy) in enumerate(cb):
                            if i and j and (i + j) % 3:
                                continue
                            yield "condition a single value", [Op([c], shape=()), Op(a[:2], dynamic=dyn), Op(b[:2] + ([9.0] if dyn else []), dynamic=dyn)], \
                                [Op([z], diff, shape=()), Op(x, dx, dynamic=dyn), Op(y, dy, dynamic=dyn)], {"size_": -1 if dyn else 2}


def where_spec(ops, extra):
    c, x, y = ops
    if len(c.shape) == 0:
        return list(x.cur if c.cur[0] else y.cur)
    return [a if z else b for z, a, b in zip(c.cur, x.cur, y.cur)]


def concat_cases():
    for pals in ([0], [0, 1], [2, 0, 1]):
        for lens in ([2, 2, 2], [1, 3, 2], [3, 1, 1]):
            yield from concat_of([[n] for n in lens[:len(pals)]], 0, pals)
    yield from concat_of([[1, 2], [2, 2]], 0, [0, 1])
    yield from concat_of([[2, 1], [2, 2]], 1, [0, 1])
    yield from concat_of([[2, 2, 1], [2, 1, 1]], 1, [1, 2])
    yield from concat_of([[2, 1, 2], [2, 1, 1]], 2, [1, 0])


def concat_of(shapes, axis, pals):
    out = list(shapes[0])
    out[axis] = sum(s[axis] for s in shapes)
    st = cstrides(out)
    data, starts, at = [], [], 0
    for s, i in zip(shapes, pals):
        n = 1
        for x in s:
            n *= x
        data.append(([PALETTES[i][0][j % 3] + j for j in range(n)], PALETTES[i][1]))
        starts.append(at * st[axis] // 8)
        at += s[axis]
    size = 1
    for x in out:
        size *= x
    ch = [changes(a, f) for a, f in data]
    combos = list(itertools.product(*[range(len(c)) for c in ch]))
    for n, co in enumerate(combos):
        if len(combos) > 60 and n % 5:
            continue
        yield "arrays of shapes %s along axis %d" % (shapes, axis), [Op(a, shape=s) for (a, f), s in zip(data, shapes)], \
            [Op(*ch[i][j], shape=shapes[i]) for i, j in enumerate(co)], \
            {"array_starts_": starts, "axis_": axis, "ndim_": len(out), "shape_": out, "strides_": st, "size_": size}


def concat_spec(ops, extra):
    out = [0.0] * extra["size_"]
    at = 0
    for o in ops:
        for i, v in enumerate(o.cur):
            ix = unravel(i, o.shape)
            ix[extra["axis_"]] += at
            out[ravel(ix, extra["shape_"])] = v
        at += o.shape[extra["axis_"]]
    return out


def size_cases():
    for a, f in PALETTES[:2]:
        for n in (0, 1, 3):
            for cur, diff in changes(a[:n], f, True):
                yield "dynamic operand", [Op(a[:n], dynamic=True)], [Op(cur, diff, dynamic=True)], {}


def cstrides(shape):
    out, s = [], 8
    for n in reversed(shape):
        out.insert(0, s)
        s *= n
    return out


def unravel(i, shape):
    out = []
    for n in reversed(shape):
        out.insert(0, i % n)
        i //= n
    return out


def ravel(ix, shape):
    r = 0
    for i, n in zip(ix, shape):
        r = r * n + i
    return r


def reduce_cases(identity, inits):
    for a, f in PALETTES:
        for dyn in (False, True):
            for n in (0, 1, 2, 3):
                if not n and not dyn:
                    continue
                for init in inits:
                    if init is None and (dyn and identity is None or identity is not None):
                        continue
                    for cur, diff in changes(a[:n], f, dyn):
                        yield "%s operand, %s" % ("dynamic" if dyn else "fixed-size", "no initial value" if init is None else "initial value %g" % init), \
                            [Op(a[:n], dynamic=dyn)], [Op(cur, diff, dynamic=dyn)], {"init": Opt(init)}


def reduce_spec(F, logical=False):
    def spec(ops, extra):
        xs = list(ops[0].cur)
        if logical:
            return [float(functools.reduce(F, xs, float(float(extra["init"]) != 0)))]
        acc = float(extra["init"]) if extra["init"].has else xs.pop(0)
        for x in xs:
            acc = F(acc, x)
        return [float(acc)]
    return spec


def partial_cases():
    for shape in ([2, 3], [3, 2, 2], [2, 1, 3], [4], [1, 2]):
        size = 1
        for n in shape:
            size *= n
        vals = [float((7 * i) % 5 - 2) for i in range(size)]
        hist = [[]] + [[(i, vals[i], vals[i] + 3.0)] for i in range(size)] + [
            [(0, vals[0], 9.0), (size - 1, vals[size - 1] if size > 1 else 9.0, -1.0)], [(0, vals[0], 4.0), (0, 4.0, 6.0)]]
        for axis in range(len(shape)):
            rest = shape[:axis] + shape[axis + 1:]
            for init in (0.0, 5.0):
                for h in hist:
                    cur = list(vals)
                    for i, o, v in h:
                        cur[i] = v
                    n = 1
                    for x in rest:
                        n *= x
                    yield "shape %s summed over axis %d" % (shape, axis), [Op(vals, shape=shape)], [Op(cur, h, shape=shape)], \
                        {"init": init, "axes_": [axis], "parent_strides_c_": cstrides(shape), "ndim_": len(rest), "shape_": rest, "strides_": cstrides(rest), "size_": n}


def partial_spec(ops, extra):
    o = ops[0]
    axis = extra["axes_"][0]
    out = [extra["init"]] * extra["size_"]
    for i, x in enumerate(o.cur):
        ix = unravel(i, o.shape)
        out[ravel(ix[:axis] + ix[axis + 1:], extra["shape_"])] += x
    return out


def permutation_cases():
    for shape in ([3], [2, 2], [3, 3], [2, 2, 2], [3, 3, 3]):
        n, d = shape[0], len(shape)
        vals = [float(10 * i + 1) for i in range(n ** d)]
        arr = Op(vals, shape=shape)
        base = [float(i) for i in range(n)]
        hists = [[], [(0, 0.0, 1.0), (1, 1.0, 0.0)], [(n - 1, base[n - 1], 0.0), (0, 0.0, base[n - 1])], [(0, 0.0, 1.0)],
                 [(0, 0.0, 1.0), (1, 1.0, 0.0), (1, 0.0, 1.0), (0, 1.0, 0.0)]]
        if n > 2:
            hists.append([(0, 0.0, 2.0), (1, 1.0, 0.0), (2, 2.0, 1.0)])
        for h in hists:
            cur = list(base)
            for i, o, v in h:
                cur[i] = v
            yield "shape %s" % shape, [arr, Op(base)], [arr, Op(cur, h)], {"ndim_": d, "shape_": list(shape), "strides_": cstrides(shape), "size_": n ** d}


def permutation_offsets(ops, extra):
    arr, order = ops
    shape = extra["shape_"]
    return [ravel([int(order.cur[j]) for j in unravel(i, shape)], shape) for i in range(extra["size_"])]


def permutation_spec(ops, extra):
    return [ops[0].cur[k] for k in permutation_offsets(ops, extra)]


def permutation_base(ops, extra, before):
    return {"offsets": permutation_offsets(ops, extra), "data": before, "diff": [], "updates": [], "old_offsets": [], "old_data_size": len(before), "previous_size_": len(before)}


def qm_cases():
    sys_ = [(3, [1.0, -2.0, 0.0], [0.0, 3.0, -1.0], {(0, 1): 2.0, (1, 2): -5.0}), (4, [0.0, 1.0, 4.0, -1.0], [0.0, 0.0, 2.0, 0.0], {(0, 3): 1.0, (1, 3): -2.0, (0, 1): 7.0}),
            (2, [1.0, 1.0], [0.0, 0.0], {})]
    for n, lin, sq, quad in sys_:
        adj = []
        for u in range(n):
            nb = sorted([(b if a == u else a, q) for (a, b), q in quad.items() if u in (a, b)])
            adj.append({"neighbors": [v for v, q in nb], "biases": [q for v, q in nb], "num_smaller_neighbors": sum(v < u for v, q in nb)})
        for a, f in [([1.0, -2.0, 3.0, 1.0], [5.0, 0.0, -4.0]), ([0.0, 2.0, 0.0, 1.0], [1.0, 0.0, 3.0])]:
            for cur, diff in changes(a[:n], f):
                for cont in (True, False):
                    yield "%s operand" % ("contiguous" if cont else "non-contiguous"), [Op(a[:n], contiguous=cont)], [Op(cur, diff, contiguous=cont)], \
                        {"quadratic_model_": {"num_variables_": n, "linear_biases_": lin, "square_biases_": sq, "adj_": adj}}


def qm_spec(ops, extra):
    x = ops[0].cur
    m = extra["quadratic_model_"]
    v = sum(l * z for l, z in zip(m["linear_biases_"], x)) + sum(s * z * z for s, z in zip(m["square_biases_"], x))
    for u, a in enumerate(m["adj_"]):
        for w, q in zip(a["neighbors"], a["biases"]):
            if w < u:
                v += q * x[u] * x[w]
    return [v]


def qm_base(ops, extra, before):
    return {"value": {"value_": before[0], "compensator_": 0.0}, "value_old": {"value_": before[0], "compensator_": 0.0}, "update": {"index": 0, "old": before[0], "value": before[0]},
            "previous_state_": list(ops[0].cur), "effective_changes_": []}


def node_kinds(p):
    """(class, histories, specification, elements of a state, state) of every kind of node covered"""
    for cls in concrete_nodes(p):
        n = short(cls)
        k = n.split("<")[0]
        if k == "UnaryOpNode":
            F = meaning(p, targ(cls))
            cs = unary_cases()
            if "root" in n:
                cs = positive(cs)
            yield cls, F and cs, lambda ops, x, F=F: [float(F(v)) for v in ops[0].cur], result_list, None
        elif k == "BinaryOpNode":
            F = meaning(p, targ(cls))
            yield cls, F and binary_cases("divides" in n), zipped(F), result_list, None
        elif k == "NaryOpNode":
            F = meaning(p, targ(cls))
            yield cls, F and nary_cases(), lambda ops, x, F=F: [fold(F, c) for c in zip(*[o.cur for o in ops])], result_list, \
                lambda ops, x, b: {"buffer": b, "updates": [], "previous_size_": len(b), "iterators": [It(o.cur, 0) for o in ops]}
        elif k == "WhereNode":
            yield cls, where_cases(), where_spec, result_list, None
        elif k == "ConcatenateNode":
            yield cls, concat_cases(), concat_spec, result_list, None
        elif k == "SizeNode":
            yield cls, size_cases(), lambda ops, x: [float(len(ops[0].cur))], result_scalar, lambda ops, x, b: {"update": {"index": 0, "old": b[0], "value": b[0]}}
        elif k == "ReduceNode":
            F = meaning(p, targ(cls))
            own = "max" in n or "min" in n
            yield cls, F and reduce_cases(None if own else 0, [None, 0.0, 2.0, -3.0]), F and reduce_spec(F, "logical" in n), result_scalar, reduce_base(n)
        elif k == "PartialReduceNode":
            yield cls, partial_cases(), partial_spec, result_list, None
        elif k == "PermutationNode":
            yield cls, permutation_cases(), permutation_spec, result_list, permutation_base
        elif k == "QuadraticModelNode":
            yield cls, qm_cases(), qm_spec, result_scalar, qm_base


def reduce_base(n):
    def base(ops, extra, before):
        if "logical" in n or "multiplies" in n:
            raise Unknown("initial state of a reduction")
        return {"values": {"index": 0, "old": before[0], "value": before[0]}, "extra": {}}
    return base


def rule_meaning(ctx):
    R = "operation-meaning"
    ctx.rule(R, "the summary of each function object the library defines equals, on a grid of values (signs, zeros, fractions), the operation it is named after", minimum=2)
    p = program()
    g = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.5, -0.5, 5.0, -4.0, 2.5, -7.0]
    seen = set()
    for cls in concrete_nodes(p):
        if "<" not in cls:
            continue
        t = targ(cls)
        base = t.split("<")[0].split("::")[-1]
        if t in seen or t.startswith("std::") or base not in ORACLE:
            continue
        seen.add(t)
        F, O = functor(p, t), ORACLE[base]
        if F is None:
            ctx.undecided(R, t)
            continue
        n = O.__code__.co_argcount if hasattr(O, "__code__") else 1 if base == "abs" else 2
        bad = last = None
        for xs in itertools.product(g, repeat=n):
            try:
                w = O(*xs)
                v = F(*xs)
            except (Unknown, TypeError, KeyError, ZeroDivisionError) as u:
                last = u
                continue
            if w == w and not close(float(v), float(w)):
                bad = bad or (xs, v, w)
        if bad:
            ctx.bad(R, t, t, "%s%s gives %g, not %g" % (t, bad[0], bad[1], bad[2]))
        elif last is not None:
            ctx.undecided(R, "%s: %s" % (t, str(last)[:80]))
        else:
            ctx.ok(R, t)


def rule_elements(ctx):
    R = "node-elements"
    ctx.rule(R, "for every node kind and every small operand state and history of reported changes (elements changed, appended, removed, changed twice and back; each "
                "operand; equal shapes and broadcast single values): the elements the summary of propagate() leaves equal those computed from the operands' new elements, "
                "and those of initialize_state() equal the ones computed from its operands", minimum=8)
    p = program()
    for cls, cases, spec, result, base in node_kinds(p):
        if cases is None:
            ctx.undecided(R, short(cls))
        else:
            evaluate(ctx, R, p, cls, cases, spec, result, base)


def rule_replay(ctx):
    R = "change-list-replays"
    ctx.rule(R, "for every node kind that keeps a change list, and every small operand state and history of reported changes: the list the summary of propagate() leaves, "
                "applied entry by entry to the elements before (indices in range, previous values right, appends and removals at the end), gives the elements after", minimum=8)
    p = program()
    for cls, cases, spec, result, base in node_kinds(p):
        k = short(cls).split("<")[0]
        if cases is None:
            ctx.undecided(R, short(cls))
        elif k in ("QuadraticModelNode", "ReduceNode"):
            continue
        elif k == "SizeNode":
            def one(own):
                u = own["update"]
                return [] if close(u["old"], u["value"]) else [dict(u, index=u.get("index", 0))]
            evaluate(ctx, R, p, cls, cases, spec, result, base, one)
        else:
            leaf = [l for l in read_by(p, cls, "diff")] or [("updates",)]
            evaluate(ctx, R, p, cls, cases, spec, result, base, lambda own, l=leaf[0]: scalars(own.get(l[-1])))


def fold(F, xs):
    r = xs[0]
    for x in xs[1:]:
        r = F(x, r)
    return float(r)

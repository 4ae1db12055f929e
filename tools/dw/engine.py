"""Value-numbered effect summaries over the structured AST facts.

A function body is walked once per structured path.  Values are terms (nested tuples) obtained by
value numbering; memory is a map from access paths to terms with per-object epochs; loops are
summarised by one generic iteration (everything the body changes is given a new name first, linear
induction variables keep their closed form); calls to functions whose body is in the facts are
inlined.  The result is a list of Paths: conditions, ordered effect events, and how the path ends.
No path condition is ever solved: a branch is pruned only when the very same atomic condition was
already decided the other way on the path, or when it folds to a literal.
"""
import itertools
import re

from .facts import strip_t

MAXPATHS = 4000
MAXDEPTH = 14


class Capped(Exception):
    pass


# ------------------------------------------------------------------------------ terms
def lit(v):
    return ("lit", v)


ZERO = ("lit", 0)
TRUE = ("lit", True)
FALSE = ("lit", False)
NOTHING = ("none",)


def is_num(t):
    return t[0] == "lit" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def lin_parts(t):
    """term -> (const, {atom: coeff})"""
    if is_num(t):
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, parts):
    parts = {a: k for a, k in parts.items() if k != 0}
    if not parts:
        return ("lit", c)
    if c == 0 and len(parts) == 1:
        (a, k), = parts.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(parts.items(), key=lambda p: repr(p))))


def add(a, b, sign=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    p = dict(pa)
    for x, k in pb.items():
        p[x] = p.get(x, 0) + sign * k
    return mk_lin(ca + sign * cb, p)


def neg(a):
    return add(ZERO, a, -1)


def mul(a, b):
    if is_num(a) or is_num(b):
        if is_num(b):
            a, b = b, a
        c, p = lin_parts(b)
        return mk_lin(c * a[1], {x: k * a[1] for x, k in p.items()})
    fs = []
    for x in (a, b):
        fs += list(x[1]) if x[0] == "mul" else [x]
    return ("mul", tuple(sorted(fs, key=repr)))


def cmp_(op, a, b, integral=False):
    """canonical comparison: lt0/le0/eq0/ne0 over a linear term"""
    if a[0] in ("iter", "riter") and b[0] == a[0] and a[1] == b[1]:
        # iterators into the same container
        pa, pb = a[2], b[2]
        if op in ("==", "!="):
            a, b, integral = pa, pb, True
        else:
            a, b, integral = pa, pb, True
    if op in (">", ">="):
        a, b = b, a
        op = {">": "<", ">=": "<="}[op]
    if op in ("==", "!="):
        # booleans / nullness
        for x, y in ((a, b), (b, a)):
            if y == FALSE or y == TRUE and (y[1] is True or x[0] in ("cmp", "not", "and", "or", "tr")):
                r = x if (y == TRUE) == (op == "==") else mk_not(x)
                return r
        if a[0] in ("addr", "new") and b == ("null",) or b[0] in ("addr", "new") and a == ("null",):
            return lit(op == "!=")
        if a == ("null",) or b == ("null",):
            x = a if b == ("null",) else b
            return mk_not(x) if op == "==" else x
        d = add(a, b, -1)
        if is_num(d):
            return lit((d[1] == 0) == (op == "=="))
        if a[0] == "lit" and b[0] == "lit":
            return lit((a[1] == b[1]) == (op == "=="))
        n = neg(d)
        d = min(d, n, key=repr)
        return ("cmp", "eq" if op == "==" else "ne", d)
    d = add(a, b, -1)
    if is_num(d):
        return lit(d[1] < 0 if op == "<" else d[1] <= 0)
    if op == "<" and integral:
        return ("cmp", "le", add(d, lit(1)))
    return ("cmp", "lt" if op == "<" else "le", d) if not integral else ("cmp", "le", d)


def mk_and(a, b):
    if FALSE in (a, b):
        return FALSE
    return b if a == TRUE else a if b == TRUE else ("and", (a, b))


def mk_or(a, b):
    if TRUE in (a, b):
        return TRUE
    return b if a == FALSE else a if b == FALSE else ("or", (a, b))


def mk_not(c):
    if c[0] == "lit":
        return lit(not c[1])
    if c[0] == "not":
        return c[1]
    if c[0] == "cmp":
        k, d = c[1], c[2]
        if k == "eq":
            return ("cmp", "ne", d)
        if k == "ne":
            return ("cmp", "eq", d)
        # not(d<=0) <=> -d<0
        if k == "le":
            n = neg(d)
            return ("cmp", "le", add(n, lit(1))) if int_like(d) else ("cmp", "lt", n)
        return ("cmp", "le", neg(d))
    if c[0] == "and":
        return ("or", tuple(mk_not(x) for x in c[1]))
    if c[0] == "or":
        return ("and", tuple(mk_not(x) for x in c[1]))
    return ("not", c)


_intatoms = {}


def int_like(t):
    """every atom of the linear term is known to be integral"""
    c, p = lin_parts(t)
    if isinstance(c, float) and c != int(c):
        return False
    return all(atom_int(a) for a in p)


def atom_int(a):
    return a in _intatoms or a[0] in ("size", "k", "revk", "havi") or (
        a[0] == "mul" and all(int_like(x) for x in a[1]))


def as_truth(v):
    """a bool-typed operand of arithmetic or a comparison: its truth value, not the number it came from"""
    if v[0] in ("cmp", "not", "and", "or", "lit", "tr", "iter", "riter", "hav", "havi", "load", "app", "addr"):
        if v[0] == "load" and v in _dbl or v[0] == "app" and v in _dbl:
            return ("tr", v)
        return v
    return ("tr", v)


_dbl = set()        # atoms of floating type seen converted to bool


def subterms(t, seen=None):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            yield from subterms(x)


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def has_unknown(t):
    return contains(t, lambda s: len(s) > 0 and s[0] in ("hav", "havi", "opaque"))


def show(t):
    """readable rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "lit":
        return str(t[1])
    if k == "lin":
        parts = []
        for a, c in t[2]:
            parts.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else str(abs(c)) + "*") + show(a))
        s = "".join(parts).lstrip("+")
        return s + (("%+d" % t[1]) if t[1] else "") if isinstance(t[1], int) else s + "+" + str(t[1])
    if k == "mul":
        return "*".join(show(x) for x in t[1])
    if k == "cmp":
        return "%s %s 0" % (show(t[2]), {"eq": "==", "ne": "!=", "lt": "<", "le": "<="}[t[1]])
    if k == "not":
        return "!(%s)" % show(t[1])
    if k in ("and", "or"):
        return (" && " if k == "and" else " || ").join("(%s)" % show(x) for x in t[1])
    if k == "load":
        return show(t[1])
    if k == "mem":
        b = show(t[1])
        return (b + "." if b not in ("this",) else "") + t[2]
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k in ("var", "param"):
        return str(t[-1])
    if k == "this":
        return "this"
    if k == "deref":
        return "*" + show(t[1])
    if k == "addr":
        return "&" + show(t[1])
    if k == "size":
        return "size(%s)" % show(t[1])
    if k == "data":
        return "data(%s)" % show(t[1])
    if k == "k":
        return "k%s" % t[1]
    if k == "revk":
        return "rk%s" % t[1]
    if k in ("app", "opaque"):
        o = (show(t[2]) + ".") if t[2] is not None and t[2] != NOTHING else ""
        return "%s%s(%s)" % (o, t[1], ", ".join(show(x) for x in t[3]))
    if k == "obj":
        return "%s{%s}" % (t[1].split("::")[-1], ", ".join("%s" % (show(v)) for f, v in t[2]))
    if k == "cond":
        return "(%s ? %s : %s)" % tuple(show(x) for x in t[1:4])
    if k == "aidx":
        return "%s+pos(%s)" % (show(t[1]), show(t[2]))
    if k in ("min", "max"):
        return "%s(%s)" % (k, ", ".join(show(x) for x in t[1]))
    if k in ("hav", "havi"):
        return "?%s" % (t[1],)
    return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:]))


# ------------------------------------------------------------------------------ state
class St:
    __slots__ = ("env", "store", "epoch", "ev", "conds", "this", "dyn", "unit")

    def __init__(self):
        self.env = {}
        self.store = {}
        self.epoch = {}
        self.ev = []
        self.conds = []
        self.this = ("this",)
        self.dyn = {}
        self.unit = None

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.epoch = dict(self.epoch)
        s.ev = list(self.ev)
        s.conds = list(self.conds)
        s.this = self.this
        s.dyn = self.dyn
        s.unit = self.unit
        return s


class Path:
    """conds, events, end = ('ret', value) | ('throw', type, line) | ('fall',) | ('break',) ..."""

    def __init__(self, conds, events, end, st=None):
        self.conds, self.events, self.end, self.st = conds, events, end, st

    @property
    def throws(self):
        return self.end[0] == "throw"


class StepCounter:
    """numbers memory versions, loops and unknowns in the order they come up"""
    cur = None

    def __init__(self):
        self.n = 0
        StepCounter.cur = self

    def __next__(self):
        self.n += 1
        return self.n


class Ev:
    """one effect; seq: every memory version numbered above it is later than the effect"""
    __slots__ = ("k", "loc", "val", "old", "line", "x", "fn", "seq")

    def __init__(self, k, loc=None, val=None, old=None, line=None, fn=None, **x):
        self.k, self.loc, self.val, self.old, self.line, self.fn, self.x = k, loc, val, old, line, fn, x
        self.seq = StepCounter.cur.n if StepCounter.cur is not None else 0

    def __repr__(self):
        s = self.k
        if self.loc is not None:
            s += " " + show(self.loc)
        if self.val is not None:
            s += " := " + show(self.val) if isinstance(self.val, tuple) else " := %r" % (self.val,)
        if self.k == "loop":
            s += " over %s:" % (show(self.x["range"]) if self.x.get("range") else "")
            for p in self.x["paths"]:
                s += "\n      [%s] -> %s" % ("; ".join(show(c) for c in p.conds), p.end[0])
                for e in p.events:
                    s += "\n        " + repr(e).replace("\n", "\n    ")
        if self.k == "call":
            s += " " + self.x["name"] + "(" + ", ".join(show(a) for a in self.x["args"]) + ")"
        return s + "  @" + str(self.line)


def loc_root(loc):
    """the object/field whose contents loc is part of (vector field, variable, data object)"""
    while loc[0] == "idx" or loc[0] == "mem" and loc[1][0] in ("idx",):
        loc = loc[1]
    return loc


def under(loc, root):
    x = loc
    while True:
        if x == root:
            return True
        if x[0] in ("idx", "mem", "deref"):
            x = x[1]
        else:
            return False


INTT = re.compile(r"^(const )?(unsigned |signed )?(long|int|short|char|size_t|ssize_t|bool)( long| int)?( unsigned)?( const)?\s*&?$")


def is_int_type(t):
    return bool(t) and bool(INTT.match(t.replace("std::", "").replace("const ", "")))


CONTAINERS = re.compile(r"^(const )?(std::(vector|deque|span|unordered_set|set|map|unordered_map|basic_string|array|list)|gsl::span|std::initializer_list)\b")


def is_container(t):
    return bool(t) and bool(CONTAINERS.match(t))


PURE_STD = {"equal", "all_of", "any_of", "none_of", "find", "find_if", "count", "count_if", "accumulate",
            "min_element", "max_element", "distance", "lower_bound", "upper_bound", "isnan", "floor",
            "abs", "fmod", "sqrt", "pow", "round", "is_sorted", "reduce", "transform_reduce", "modf",
            "begin", "end", "size", "ssize", "data", "make_pair", "make_tuple", "get", "prev", "next",
            "to_string", "use_count", "lowest", "max", "min", "infinity", "quiet_NaN", "ceil", "trunc",
            "isinf", "isfinite", "is_integer", "contains", "use_facet", "inner_product"}


# plain functions of their argument values
VALUE_STD = {"make_pair", "gcd", "lcm", "make_tuple", "tie", "isnan", "isinf", "isfinite", "signbit", "copysign", "floor", "ceil", "trunc", "round", "abs", "fmod",
             "sqrt", "pow", "exp", "log", "to_string", "get"}

ITER_METHODS = {"begin", "end", "cbegin", "cend", "rbegin", "rend"}


class Walker:
    def __init__(self, prog, noinline=(), dyn=None, inline_pred=None, maxpaths=MAXPATHS, keepfns=False):
        self.p = prog
        self.noinline = {"view", "unreachable", "fit", "dwave::optimization::Slice::size", "dwave::optimization::SizeInfo::substitute", "dwave::optimization::SizeInfo::operator=="} | set(noinline)
        self.inline_pred = inline_pred
        self.ctr = StepCounter()
        self.maxpaths = maxpaths
        self.stack = []
        self.capped = False
        self.inlined = set()
        self.escapes = []       # throw outcomes produced inside expressions
        self.dyn = dyn or {}    # term of an object -> dynamic class name

    # -------------------------------------------------------------------- entry points
    def run(self, f, this=("this",), args=None, cls=None, env=None, store=None):
        """walk function f; cls = assumed dynamic class of this"""
        StepCounter.cur = self.ctr
        st = St()
        if store:
            st.store.update(store)
        st.unit = f["unit"]
        st.this = this
        st.dyn = dict(self.dyn)
        if cls:
            st.dyn[this] = cls
        if args is None:
            args = [("param", p["n"] or "p%d" % i) for i, p in enumerate(f["params"])]
        for p, a in zip(f["params"], args):
            self.intern_type(a, p["t"])
        if env:
            st.env.update(env)
        return self.call_body(f, st, args, top=True)

    def intern_type(self, term, t):
        if is_int_type(t) and not is_num(term):
            _intatoms[term] = True

    def call_body(self, f, st, args, top=False):
        """bind, execute; -> list of Path with .st"""
        if len(self.stack) > MAXDEPTH or any(g is f for g in self.stack):
            raise RecursionError
        u = f["unit"]
        saved_this, saved_unit = st.this, st.unit
        st.unit = u
        for i, p in enumerate(f["params"]):
            key = (u, p["id"])
            a = args[i] if i < len(args) else ("opaque", "defaultarg", NOTHING, (), next(self.ctr))
            if p["t"].rstrip().endswith("&") and a[0] == "L":
                st.env[key] = ("ref", a[1])
            else:
                v = self.rv(a, st) if a[0] == "L" else a
                loc = ("var", key, p["n"])
                st.env[key] = ("ref", loc)
                self.kill(st, loc)
                st.store[loc] = v
                self.intern_type(v, p["t"])
        self.stack.append(f)
        self.inlined.add(f["id"])
        try:
            outs = []
            sts = [st]
            if f.get("isctor"):
                nxt = []
                for s in sts:
                    nxt += self.ctor_inits(f, s, outs)
                sts = nxt
            for s in sts:
                outs += self.ex(f["body"], s)
            res = []
            for s, o in outs:
                s.this, s.unit = saved_this, saved_unit
                if o[0] in ("normal",):
                    o = ("fall",)
                res.append(Path(s.conds, s.ev, o, s))
            if len(res) > self.maxpaths:
                raise Capped
            return res
        finally:
            self.stack.pop()

    def ctor_inits(self, f, st, outs):
        sts = [st]
        for i in f.get("inits", []):
            if "e" not in i:
                continue
            nxt = []
            for s in sts:
                esc, self.escapes = self.escapes, []
                if "field" in i:
                    loc = ("mem", s.this, i["field"])
                    for s2, v in self.ev(i["e"], s):
                        self.write(s2, loc, v, i["e"].get("l") or i.get("l"), init=True)
                        nxt.append(s2)
                else:
                    # base or delegated constructor: run it on the same object
                    e = i["e"]
                    if e["k"] == "ctor":
                        g = self.p.find(e["f"]["id"], s.unit)
                        if g and g not in self.stack:
                            for s2, av in self.args(e["a"], s, g):
                                try:
                                    for p in self.call_body(g, s2, av):
                                        if p.throws:
                                            self.escapes.append((p.st, p.end))
                                        else:
                                            nxt.append(p.st)
                                except RecursionError:
                                    nxt.append(s2)
                        else:
                            for s2, av in self.args(e["a"], s, None):
                                s2.ev.append(Ev("basector", val=None, line=i["l"], fn=self.fname(),
                                                name=i.get("base", "delegate"), args=[self.rv(a, s2) for a in av]))
                                nxt.append(s2)
                    else:
                        for s2, v in self.ev(e, s):
                            nxt.append(s2)
                for s2, o in self.escapes:
                    outs.append((s2, o))
                self.escapes = esc
            sts = nxt
        return sts

    def fname(self):
        return self.stack[-1]["q"] if self.stack else None

    # -------------------------------------------------------------------- memory
    def kill(self, st, loc):
        for k in [k for k in st.store if k != loc and under(k, loc)]:
            del st.store[k]

    def epoch_of(self, st, loc):
        x = loc
        best = 0
        while True:
            best = max(best, st.epoch.get(x, 0))
            if x[0] in ("idx", "mem"):
                x = x[1]
            else:
                break
        return best

    def load(self, st, loc):
        if loc in st.store:
            v = st.store[loc]
            if loc[0] == "var" and v[0] in ("load", "obj", "app"):
                # a local aggregate some members of which were assigned since
                over = tuple((z[2], y) for z, y in st.store.items() if z[0] == "mem" and z[1] == loc)
                if over:
                    if v[0] == "obj":
                        d = dict(over)
                        return ("obj", v[1], tuple((f, d.get(f, x)) for f, x in v[2]))
                    return ("upd", v, tuple(sorted(over)))
            return v
        # field of a stored aggregate value
        if loc[0] in ("mem", "idx"):
            base = loc[1]
            chain = [loc]
            while True:
                if base in st.store:
                    v = st.store[base]
                    for c in reversed(chain):
                        v = self.select(v, c, st)
                    return v
                if base[0] in ("mem", "idx"):
                    chain.append(base)
                    base = base[1]
                else:
                    break
        t = ("load", loc, self.epoch_of(st, loc))
        return t

    def select(self, v, c, st):
        """component c (mem/idx) of an aggregate value"""
        if c[0] == "mem":
            if v[0] == "obj":
                for f, x in v[2]:
                    if f == c[2]:
                        return x
            if v[0] == "load":
                return ("load", ("mem", v[1], c[2]), v[2])
            if v[0] == "upd":
                for f, x in v[2]:
                    if f == c[2]:
                        return x
                return self.select(v[1], c, st)
            return ("fld", v, c[2])
        if v[0] == "load":
            return ("load", ("idx", v[1], c[2]), v[2])
        if v[0] == "iter" and c[2] == "tuple":
            return ("fld", v, c[2])
        return ("at", v, c[2])

    def write(self, st, loc, val, line, init=False, op=None):
        old = self.load(st, loc)
        self.kill(st, loc)
        st.store[loc] = val
        if loc[0] == "var":
            # local variable: no event, unless it is static
            return old
        st.ev.append(Ev("init" if init else "w", loc, val, old, line, fn=self.fname(), op=op))
        return old

    def havoc(self, st, loc, ints=False):
        self.kill(st, loc)
        st.store.pop(loc, None)
        n = next(self.ctr)
        st.epoch[loc] = n

    def rv(self, v, st):
        if v[0] == "L":
            return self.load(st, v[1])
        if v[0] == "pending_tview":
            return self.settle(v, st)
        return v

    # -------------------------------------------------------------------- expressions
    def ev(self, e, st):
        return [(s, self.rv(v, s)) for s, v in self.any(e, st)]

    def args(self, es, st, f=None, lv=True):
        """evaluate argument list; keeps lvalues as ('L', loc)"""
        outs = [(st, [])]
        for a in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.any(a, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def any(self, e, st):
        """-> list of (state, value or ('L', loc))"""
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return [(st, ("opaque", k, NOTHING, (), next(self.ctr)))]
        r = m(e, st)
        for j, (s, v) in enumerate(r):
            if v[0] == "pending_tview":
                r = list(r)
                r[j] = (s, self.settle(v, s))
        if is_int_type(e.get("t")):
            for s, v in r:
                if v[0] == "L":
                    v = self.rv(v, s)
                if v[0] not in ("lit", "lin"):
                    _intatoms[v] = True
        return r

    def e_none(self, e, st):
        return [(st, NOTHING)]

    def e_lit(self, e, st):
        v = e["v"]
        if v == "true":
            return [(st, TRUE)]
        if v == "false":
            return [(st, FALSE)]
        try:
            return [(st, lit(int(v)))]
        except ValueError:
            try:
                f = float(v)
                return [(st, lit(int(f) if f == int(f) else f))]
            except (ValueError, OverflowError):
                return [(st, ("lit", v))]

    def e_str(self, e, st):
        return [(st, ("str", e.get("v", "")))]

    def e_null(self, e, st):
        return [(st, ("null",))]

    def e_this(self, e, st):
        return [(st, ("addr", st.this) if st.this[0] != "thisval" else st.this)]

    def e_ref(self, e, st):
        dk = e["dk"]
        if dk == "func":
            return [(st, ("fn", e["f"]["id"], e["n"]))]
        if "cv" in e:
            return [(st, lit(int(e["cv"])))]
        if dk == "enum":
            return [(st, ("enum", e["q"]))]
        if dk in ("global",):
            return [(st, ("L", ("global", e.get("q") or e["n"])))]
        key = (st.unit, e["id"])
        b = st.env.get(key)
        if b is None:
            loc = ("var", key, e["n"])
            if dk == "slocal":
                loc = ("slocal", self.fname(), e["n"])
            return [(st, ("L", loc))]
        if b[0] == "ref":
            return [(st, ("L", b[1]))]
        return [(st, b)]

    def e_mem(self, e, st):
        out = []
        for s, b in self.any(e["b"], st):
            if "f" in e:  # bound method without call
                out.append((s, ("bound", e["f"]["id"], self.rv(b, s))))
                continue
            if e.get("arrow"):
                b = self.deref(self.rv(b, s), s)
            if b[0] == "L":
                out.append((s, ("L", ("mem", b[1], e["n"]))))
            else:
                out.append((s, self.select(b, ("mem", None, e["n"]), s)))
        return out

    def deref(self, v, st):
        """pointer/iterator/smart pointer value -> ('L', loc) or value"""
        if v[0] == "addr":
            return ("L", v[1])
        if v[0] == "iter":
            return self.index(v[1], v[2])
        if v[0] == "riter":
            return self.index(v[1], ("rpos", v[2]))
        if v[0] == "new":
            return ("L", ("heap", v[1], v[2]))
        if v[0] == "opt":
            return v[1]
        return ("L", ("deref", v))

    def index(self, cont, pos):
        """element `pos` of container (loc or value term)"""
        if cont[0] == "reverse":
            return self.index(cont[1], ("revk", pos[1]) if pos[0] == "k" else ("rpos", pos))
        if cont[0] == "drop":
            return self.index(cont[1], add(cont[2], pos))
        if cont[0] == "take":
            return self.index(cont[1], pos)
        if cont[0] == "iota":
            return add(cont[1], pos)
        if cont[0] == "tview":
            return ("pending_tview", cont, pos)
        if cont[0] == "cval":
            return ("at", cont[1], pos)
        if cont[0] == "deref" and cont[1][0] == "app" and cont[1][1].startswith("ctor:") and "Iterator" in cont[1][1] \
                and cont[1][3] and cont[1][3][0][0] == "addr" and cont[1][3][0][1][0] == "idx":
            # strided iterator over an indexed buffer: element of that buffer
            b = cont[1][3][0][1]
            return ("L", ("idx", b[1], ("aidx", b[2], pos, cont[1][3][1:])))
        return ("L", ("idx", cont, pos))

    def container_of(self, v, st):
        """value of a range expression -> container denotation (loc or range term)"""
        if v[0] == "L":
            x = st.store.get(v[1])
            if x is not None and x[0] in ("reverse", "drop", "take", "iota", "tview", "cval", "app", "opaque", "load", "span"):
                return self.container_of(x, st)
            return v[1]
        if v[0] in ("reverse", "drop", "take", "iota", "tview", "cval"):
            return v
        if v[0] == "span":
            return v[1] if v[1][0] != "L" else v[1][1]
        if v[0] == "load":
            return v[1]
        return ("deref", v)

    def e_sub(self, e, st):
        out = []
        for s, b in self.any(e["b"], st):
            for s2, i in self.ev(e["i"], s):
                bv = self.rv(b, s2)
                if bv[0] == "addr" and bv[1][0] == "idx":
                    out.append((s2, ("L", ("idx", bv[1][1], add(bv[1][2], i)))))
                else:
                    out.append((s2, ("L", ("idx", ("deref", bv), i))))
        return out

    def e_cast(self, e, st):
        t = e.get("t", "")
        if t == "void":
            return self.any(e["e"], st)
        ck = e.get("ck", "")
        out = []
        for s, v in self.any(e["e"], st):
            src = e["e"].get("t", "")
            if is_int_type(t) and ("double" in src or "float" in src):
                out.append((s, ("toint", self.rv(v, s))))
            elif t == "bool" and (v[0] != "L" or "double" in src):
                v = self.rv(v, s)
                if "double" in src:
                    _dbl.add(v)
                out.append((s, self.truth(v)))
            elif ck == "CXXDynamicCastExpr":
                out.append((s, ("dyncast", strip_t(t), self.rv(v, s))))
            else:
                out.append((s, v))
        return out

    def e_icast(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if e.get("t") == "bool":
                if "double" in e["e"].get("t", ""):
                    _dbl.add(v)
                out.append((s, self.truth(v)))
            else:
                out.append((s, ("toint", v)))
        return out

    def truth(self, v):
        """value used as a condition"""
        if v[0] in ("cmp", "not", "and", "or"):
            return v
        if v[0] == "lit":
            return lit(bool(v[1]))
        if v[0] in ("addr", "new"):
            return TRUE
        if v[0] == "null":
            return FALSE
        if v[0] in ("lin", "mul") or atom_int(v):
            return cmp_("!=", v, ZERO)
        return v

    def engaged(self, v):
        """whether a std::optional holds a value, when its content is a plain value or nothing; None: not known"""
        if v[0] in ("lit", "lin", "mul", "min", "max", "toint") or v[0] == "app" and v[1] in ("/", "%"):
            return TRUE
        if v[0] == "load" and v[1][0] == "global" and "nullopt" in v[1][1] or v[0] == "global" and "nullopt" in v[1] \
                or v[0] == "obj" and v[1].startswith("std::optional<") and not v[2]:
            return FALSE
        if v[0] == "load" and v[1][0] == "mem":
            ty = self.p.field_types().get(v[1][2])
            if ty and not any("optional" in x for x in ty):
                return TRUE
        return None

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            # pure boolean value: keep as a term when neither side has effects
            v = self.cond_term(e, st)
            if v is not None:
                return [(st, v)]
            t, f = self.branch(e, st)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if op == ",":
            out = []
            for s, _ in self.any(e["x"], st):
                out += self.any(e["y"], s)
            return out
        out = []
        for s, a in self.ev(e["x"], st):
            for s2, b in self.ev(e["y"], s):
                out.append((s2, self.binop(op, a, b, e["x"].get("t", ""), e["y"].get("t", ""))))
        return out

    def cond_term(self, e, st):
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            a = self.cond_term(e["x"], st)
            b = self.cond_term(e["y"], st)
            if a is None or b is None:
                return None
            if e["op"] == "&&":
                if a == FALSE or b == FALSE:
                    return FALSE
                return a if b == TRUE else b if a == TRUE else ("and", (a, b))
            if a == TRUE or b == TRUE:
                return TRUE
            return a if b == FALSE else b if a == FALSE else ("or", (a, b))
        s0 = st.copy()
        r = self.ev(e, s0)
        if len(r) != 1 or len(r[0][0].ev) != len(st.ev) or r[0][0].store != st.store:
            return None
        return self.truth(r[0][1])

    def binop(self, op, a, b, ta="", tb=""):
        if op not in ("&&", "||", ","):
            if ta.replace("const ", "") == "bool":
                a = as_truth(a)
            if tb.replace("const ", "") == "bool":
                b = as_truth(b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            integral = (is_int_type(ta) or int_like(a)) and (is_int_type(tb) or int_like(b))
            return cmp_(op, a, b, integral)
        if op in ("+", "-"):
            for it in ("iter", "riter"):
                if a[0] == it:
                    if b[0] == it:
                        return add(a[2], b[2], -1) if a[1] == b[1] else ("app", "-", NOTHING, (a, b))
                    return (it, a[1], add(a[2], b, 1 if op == "+" else -1))
            if a[0] == "addr" and a[1][0] == "idx":
                if b[0] == "addr" and b[1][0] == "idx" and b[1][1] == a[1][1]:
                    return add(a[1][2], b[1][2], -1)
                return ("addr", ("idx", a[1][1], add(a[1][2], b, 1 if op == "+" else -1)))
            if ta.endswith("*"):
                return ("addr", ("idx", ("deref", a), b if op == "+" else neg(b)))
            return add(a, b, 1 if op == "+" else -1)
        if op == "*":
            return mul(a, b)
        if is_num(a) and is_num(b) and op in ("/", "%") and b[1] != 0:
            return lit(a[1] // b[1] if op == "/" else a[1] % b[1])
        if op in ("&", "|", "^"):
            return ("app", op, NOTHING, tuple(sorted((a, b), key=repr)))
        return ("app", op, NOTHING, (a, b))

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, l in self.any(e["e"], st):
                if l[0] != "L":
                    out.append((s, ("opaque", op, NOTHING, (l,), next(self.ctr))))
                    continue
                old = self.load(s, l[1])
                new = self.step(old, 1 if op == "++" else -1)
                self.write(s, l[1], new, e["l"], op=op)
                out.append((s, old if e.get("post") else l))
            return out
        if op == "*":
            return [(s, self.deref(v, s)) for s, v in self.ev(e["e"], st)]
        if op == "&":
            return [(s, ("addr", v[1]) if v[0] == "L" else ("app", "&", NOTHING, (v,))) for s, v in self.any(e["e"], st)]
        if op == "!":
            return [(s, mk_not(self.truth(v))) for s, v in self.ev(e["e"], st)]
        if op == "-":
            return [(s, neg(v)) for s, v in self.ev(e["e"], st)]
        if op == "+":
            return self.ev(e["e"], st)
        return [(s, ("app", op, NOTHING, (v,))) for s, v in self.ev(e["e"], st)]

    def step(self, old, by):
        if old[0] in ("iter", "riter"):
            return (old[0], old[1], add(old[2], lit(by)))
        if old[0] == "addr" and old[1][0] == "idx":
            return ("addr", ("idx", old[1][1], add(old[1][2], lit(by))))
        if is_num(old) or old[0] == "lin" or atom_int(old) or old[0] in ("load", "k", "param", "size", "app", "mul", "hav"):
            return add(old, lit(by))
        return add(old, lit(by))

    def e_assign(self, e, st):
        out = []
        op = e["op"]
        for s, v in self.ev(e["y"], st):
            for s2, l in self.any(e["x"], s):
                if l[0] != "L":
                    s2.ev.append(Ev("w", ("deref", l), v, None, e["l"], fn=self.fname(), op=op))
                    out.append((s2, v))
                    continue
                if op != "=":
                    old = self.load(s2, l[1])
                    nv = self.binop(op[:-1], old, v, e["x"].get("t", ""), e["y"].get("t", ""))
                else:
                    nv = v
                    if is_int_type(e["x"].get("t", "")) and v[0] not in ("lit", "lin"):
                        _intatoms[v] = True
                self.write(s2, l[1], nv, e["l"], op=op)
                out.append((s2, l))
        return out

    def e_cond(self, e, st):
        t, f = self.branch(e["c"], st.copy())
        if t and not f:
            return self.any(e["x"], t[0])
        if f and not t:
            return self.any(e["y"], f[0])
        c = self.cond_term(e["c"], st)
        s0 = st.copy()
        a = self.any(e["x"], s0)
        s1 = st.copy()
        b = self.any(e["y"], s1)
        if c is not None and len(a) == 1 and len(b) == 1 and len(s0.ev) == len(st.ev) and len(s1.ev) == len(st.ev):
            va, vb = a[0][1], b[0][1]
            ra, rb = self.rv(va, s0), self.rv(vb, s1)
            if ra == rb:
                return [(st, ra)]
            return [(st, ("cond", c, ra, rb))]
        out = []
        for s in t:
            out += self.any(e["x"], s)
        for s in f:
            out += self.any(e["y"], s)
        return out

    def e_lambda(self, e, st):
        for c in e["caps"]:
            if "init" in c and c.get("id") is not None:
                key = (st.unit, c["id"])
                if key not in st.env and c["init"]["k"] != "ref":
                    r = self.any(c["init"], st)
                    v = r[0][1]
                    if c.get("ref") and v[0] == "L":
                        st.env[key] = ("ref", v[1])
                    else:
                        loc = ("var", key, c.get("n", "cap"))
                        st.env[key] = ("ref", loc)
                        st.store[loc] = self.rv(v, st)
        return [(st, ("lambda", tuple(e["fs"]), st.unit, st.this))]

    def e_throw(self, e, st):
        sts = [st]
        if "e" in e:
            sts = [s for s, _ in self.ev(e["e"], st)]
        for s in sts:
            self.escapes.append((s, ("throw", strip_t(e.get("t", "rethrow")), e["l"])))
        return []

    def e_init(self, e, st):
        t = strip_t(e.get("t", ""))
        outs = self.args(e["a"], st)
        r = []
        rec = self.p.rec.get(t)
        for s, vs in outs:
            vs = [self.rv(v, s) for v in vs]
            if rec and len(rec["fields"]) >= len(vs):
                r.append((s, ("obj", t, tuple((f["n"], v) for f, v in zip(rec["fields"], vs)))))
            elif len(vs) == 1 and not is_container(t) and "initializer_list" not in t and "[" not in t:
                r.append((s, vs[0]))
            else:
                r.append((s, ("list", tuple(vs))))
        return r

    def e_new(self, e, st):
        if "e" in e:
            return [(s, ("new", strip_t(e["t"]), v)) for s, v in self.ev(e["e"], st)]
        return [(st, ("new", strip_t(e["t"]), NOTHING))]

    def e_delete(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            s.ev.append(Ev("call", None, None, None, e["l"], fn=self.fname(), name="delete", args=[v], obj=None, f=None))
            out.append((s, NOTHING))
        return out

    def e_other(self, e, st):
        outs = self.args(e.get("a", []), st)
        return [(s, ("opaque", e.get("c", "?"), NOTHING, tuple(self.rv(v, s) for v in vs), next(self.ctr))) for s, vs in outs]

    # -------------------------------------------------------------------- calls
    def e_ctor(self, e, st):
        f = e["f"]
        t = strip_t(e.get("t", ""))
        out = []
        if e.get("cm") and len(e["a"]) >= 1:
            r = []
            for s, v in self.any(e["a"][0], st):
                r.append((s, self.rv(v, s)))
            return r
        for s, vs in self.args(e["a"], st):
            out += self.construct(t, f, vs, s, e["l"], e)
        return out

    def construct(self, t, f, vs, s, line, e=None):
        g = self.p.find(f["id"], s.unit) if f else None
        rec = self.p.rec.get(t)
        if "Iterator" in t and len(vs) != 1:
            return [(s, ("iter", ("deref", ("app", "ctor:" + t, NOTHING, tuple(self.rv(v, s) for v in vs))), ZERO))]
        if t.endswith("SuccessorView") or (rec and g):
            # run on a temp object
            loc = ("tmp", t, next(self.ctr))
            saved = s.this
            n0 = len(s.ev)
            s.this = loc
            try:
                paths = self.call_body(g, s, vs)
            except RecursionError:
                s.this = saved
                return [(s, ("opaque", t, NOTHING, tuple(self.rv(v, s) for v in vs), next(self.ctr)))]
            out = []
            for p in paths:
                p.st.this = saved
                if p.throws:
                    self.escapes.append((p.st, p.end))
                    continue
                fs = []
                for b, fd in self.p.fields(t):
                    l = ("mem", loc, fd["n"])
                    fs.append((fd["n"], self.load(p.st, l)))
                # drop the initialisation events of the temporary
                p.st.ev[n0:] = [x for x in p.st.ev[n0:] if not (x.loc is not None and under(x.loc, loc))]
                if len(fs) <= 12:
                    out.append((p.st, ("obj", t, tuple(fs))))
                else:
                    out.append((p.st, ("opaque", t, NOTHING, tuple(self.rv(v, p.st) for v in vs), next(self.ctr))))
            return out
        rvs = tuple(self.rv(v, s) for v in vs)
        if not vs:
            return [(s, ("obj", t, ()))] if not is_container(t) else [(s, ("list", ()))]
        if len(vs) == 1 and (t.startswith("std::span") or "subrange" in t or t.startswith("std::function")):
            v = vs[0]
            return [(s, v if v[0] == "L" else rvs[0])]
        if t.startswith("std::span") and rvs[0][0] == "addr":
            return [(s, ("span", rvs[0][1], rvs[1]))]
        if "iterator" in t and len(rvs) == 1 and rvs[0][0] in ("iter", "riter", "addr"):
            return [(s, rvs[0])]
        if t.startswith("std::optional") or t.startswith("std::unique_ptr") or t.startswith("std::shared_ptr") or "string" in t:
            return [(s, rvs[0])]
        return [(s, ("app", "ctor:" + t, NOTHING, rvs))]

    def e_opcall(self, e, st):
        op = e["op"]
        f = e.get("f")
        g = self.p.find(f["id"], st.unit) if f else None
        out = []
        if op == "()":
            for s, vs in self.args(e["a"], st):
                out += self.apply(vs[0], vs[1:], s, e["l"], f, e)
            return out
        for s, vs in self.args(e["a"], st):
            if op == "[]":
                if g and not is_container(f.get("cls", "")):
                    out += self.invoke(g, f, vs[0], vs[1:], s, e["l"])
                else:
                    i = self.rv(vs[1], s)
                    c = vs[0]
                    cc = self.container_of(c, s)
                    cls = f.get("cls", "") if f else ""
                    if "iterator" in cls:
                        b = self.rv(c, s)
                        out.append((s, self.deref(self.binop("+", b, i), s)))
                    elif "map" in cls:
                        out.append((s, self.index(cc, i)))
                    else:
                        out.append((s, self.index(cc, i)))
                continue
            if op == "|":
                out.append((s, self.pipe(vs[0], self.rv(vs[1], s) if vs[1][0] != "L" else vs[1], s)))
                continue
            if op in ("*", "->") and len(vs) == 1:
                v = self.rv(vs[0], s)
                if g and op == "*" and "Iterator" in f.get("cls", "") and v[0] in ("load", "app", "at", "fld", "hav"):
                    out.append((s, self.index(("deref", v), ZERO)))
                    continue
                if g and v[0] not in ("iter", "riter", "addr"):
                    r = self.invoke(g, f, vs[0], [], s, e["l"])
                    if op == "->":
                        r = [(s2, self.rv(x, s2)) for s2, x in r]
                    out += r
                    continue
                out.append((s, self.deref(v, s) if op == "*" else v))
                continue
            if op in ("++", "--"):
                l = vs[0]
                if g:
                    # repo-defined iterator: treat as an abstract iterator step
                    pass
                if l[0] == "L":
                    old = self.load(s, l[1])
                    if old[0] == "load" or old[0] in ("app", "opaque", "obj", "hav"):
                        new = ("iter", ("deref", old), lit(1 if op == "++" else -1))
                    else:
                        new = self.step(old, 1 if op == "++" else -1)
                    self.write(s, l[1], new, e["l"], op=op)
                    out.append((s, old if len(vs) == 2 else l))
                else:
                    out.append((s, ("opaque", op, NOTHING, (l,), next(self.ctr))))
                continue
            if op in ("+=", "-=", "*=", "/="):
                l = vs[0]
                if l[0] == "L":
                    old = self.load(s, l[1])
                    self.write(s, l[1], self.binop(op[:-1], old, self.rv(vs[1], s)), e["l"], op=op)
                    out.append((s, l))
                    continue
            if op == "=":
                l = vs[0]
                v = self.rv(vs[1], s)
                if l[0] == "L":
                    self.write(s, l[1], v, e["l"], op="=")
                    out.append((s, l))
                    continue
            if op in ("==", "!=", "<", "<=", ">", ">=", "+", "-") and len(vs) == 2:
                a, b = self.rv(vs[0], s), self.rv(vs[1], s)
                if g and op in ("+", "-") and a[0] in ("load", "app", "at", "fld", "hav") and \
                        "Iterator" in (e["a"][0].get("t") or "") and is_int_type(e["a"][1].get("t")):
                    out.append((s, ("iter", ("deref", a), b if op == "+" else neg(b))))
                    continue
                if op in ("==", "!=") and not g and any("std::optional<" in str(x.get("t", "")) for x in e["a"]):
                    # equal content, or both empty
                    ea, eb = [self.engaged(v) or self.truth(v) if "std::optional<" in str(x.get("t", "")) else TRUE for v, x in zip((a, b), e["a"])]
                    if TRUE not in (ea, eb) or ea != eb:
                        c = mk_or(mk_and(mk_and(ea, eb), self.binop("==", a, b)), mk_and(mk_not(ea), mk_not(eb)))
                        out.append((s, c if op == "==" else mk_not(c)))
                        continue
                if not g or a[0] in ("iter", "riter"):
                    out.append((s, self.binop(op, a, b)))
                    continue
            if op == "-" and len(vs) == 1:
                out.append((s, neg(self.rv(vs[0], s))))
                continue
            if op == "!":
                out.append((s, mk_not(self.truth(self.rv(vs[0], s)))))
                continue
            if g:
                isfree = not f.get("cls")
                out += self.invoke(g, f, None if isfree else vs[0], vs if isfree else vs[1:], s, e["l"])
                continue
            out.append((s, ("app", "op" + op, NOTHING, tuple(self.rv(v, s) for v in vs))))
        return out

    def pipe(self, r, a, st):
        c = self.container_of(r, st)
        if a[0] == "L" and a[1][0] == "global":
            n = a[1][1].split("::")[-1]
            if n == "reverse":
                if c[0] == "reverse":
                    return c[1] if c[1][0] in ("drop", "take", "tview", "reverse") else ("L", c[1])
                return ("reverse", c)
            if n in ("all", "common"):
                return r
            return ("app", "view:" + n, NOTHING, (c,))
        if a[0] == "L":
            a = self.rv(a, st)
        if a[0] == "adaptor":
            n, args = a[1], a[2]
            if n == "drop":
                return ("drop", c, args[0])
            if n == "take":
                return ("take", c, args[0])
            if n == "transform":
                return ("tview", c, args[0])
            if n == "filter":
                return ("app", "filter", NOTHING, (c, args[0]))
        return ("app", "pipe", NOTHING, (c, a))

    def apply(self, fv, vs, s, line, f=None, e=None):
        """call a function value"""
        v = self.rv(fv, s)
        if v[0] == "lambda":
            fs, unit, this = v[1], v[2], v[3]
            g = None
            cand = [self.p.fn.get((unit, x)) for x in fs]
            cand = [x for x in cand if x]
            if f is not None:
                for x in cand:
                    if x["id"] == f.get("id"):
                        g = x
            if g is None and len(cand) >= 1:
                m = [x for x in cand if len(x["params"]) == len(vs)]
                g = (m or cand)[0]
            if g is not None:
                saved = s.this
                s.this = this
                # generic lambdas called with themselves: cut the recursion
                try:
                    return self.finish(self.call_body(g, s, vs), g, saved)
                except RecursionError:
                    s.this = saved
                    s.ev.append(Ev("call", None, None, None, line, fn=self.fname(), name="recurse", args=[self.rv(x, s) for x in vs], obj=None, f=g))
                    return [(s, ("app", "recurse", NOTHING, tuple(self.rv(x, s) for x in vs)))]
        if v[0] == "bindf":
            args = []
            for a in v[2]:
                b = a
                while b[0] == "load":
                    b = b[1]
                m = re.fullmatch(r"std::placeholders::_(\d)", b[1]) if b[0] == "global" else None
                args.append(a if m is None else vs[int(m.group(1)) - 1] if int(m.group(1)) <= len(vs) else None)
            if None not in args:
                fn = v[1]
                if fn[0] == "obj":
                    cand = [x for x in self.p.methods_of(fn[1]) if x["n"] == "operator()"]
                    return self.apply(fn, args, s, line, cand[0] if cand else {"cls": fn[1], "id": None, "n": "operator()"}, e)
                if fn[0] in ("lambda", "fn", "bindf"):
                    return self.apply(fn, args, s, line, None, e)
        if v[0] == "fn":
            g = self.p.find(v[1], s.unit)
            if g:
                return self.invoke(g, g, None, vs, s, line)
        if fv[0] == "L" and fv[1][0] == "global" and "views::" in str(fv[1][1]):
            n = fv[1][1].split("::")[-1]
            rvs = tuple(self.rv(x, s) for x in vs)
            if n == "iota":
                return [(s, ("iota", rvs[0]) + rvs[1:])]
            if n in ("reverse",):
                return [(s, self.pipe(vs[0], fv, s))]
            if len(vs) == 2:
                return [(s, self.pipe(vs[0], ("adaptor", n, (rvs[1],)), s))]
            return [(s, ("adaptor", n, rvs))]
        if f is not None and f.get("cls"):
            name = f["cls"]
            g = self.p.find(f["id"], s.unit)
            short = name.split("::")[-1]
            if name.startswith("std::ranges::__") or name.startswith("std::ranges::_"):
                alg = re.sub(r"^_+", "", name.split("::")[-1])
                alg = re.sub(r"_fn$", "", alg).lower()
                return self.algorithm(alg, vs, s, line, e)
            if g:
                return self.invoke(g, f, fv, vs, s, line)
            rvs = tuple(self.rv(x, s) for x in vs)
            m = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/",
                 "std::equal_to": "==", "std::less_equal": "<=", "std::less": "<", "std::negate": "neg",
                 "std::logical_and": "&&", "std::logical_or": "||", "std::logical_not": "!"}
            base = name.split("<")[0]
            if base in m:
                o = m[base]
                if o == "neg":
                    return [(s, neg(rvs[0]))]
                if o == "!":
                    return [(s, mk_not(self.truth(rvs[0])))]
                if o == "&&":
                    return [(s, ("and", tuple(self.truth(x) for x in rvs)))]
                if o == "||":
                    return [(s, ("or", tuple(self.truth(x) for x in rvs)))]
                return [(s, self.binop(o, *rvs))]
            # a distribution / function object: opaque, may have effects on arguments (rng)
            s.ev.append(Ev("call", None, None, None, line, fn=self.fname(), name="operator()", args=list(rvs), obj=v, f=f))
            return [(s, ("app", "call", v, rvs + (("n", next(self.ctr)),)))]
        rvs = tuple(self.rv(x, s) for x in vs)
        s.ev.append(Ev("call", None, None, None, line, fn=self.fname(), name="operator()", args=list(rvs), obj=v, f=f))
        return [(s, ("app", "call", v, rvs + (("n", next(self.ctr)),)))]

    def finish(self, paths, g, saved_this):
        out = []
        isref = g["rt"].rstrip().endswith("&")
        for p in paths:
            p.st.this = saved_this
            if p.throws:
                self.escapes.append((p.st, p.end))
                continue
            v = p.end[1] if p.end[0] == "ret" else NOTHING
            if not isref and v[0] == "L":
                v = self.rv(v, p.st)
            out.append((p.st, v))
        return out

    def e_call(self, e, st):
        f = e.get("f")
        if f is None:
            out = []
            for s, c in self.any(e["ce"], st):
                for s2, vs in self.args(e["a"], s):
                    out += self.apply(c, vs, s2, e["l"], None, e)
            return out
        name = f["n"]
        out = []
        for s, vs in self.args(e["a"], st):
            out += self.call_fn(f, name, vs, s, e)
        return out

    def call_fn(self, f, name, vs, s, e):
        q = f.get("q", name)
        line = e["l"]
        if q.startswith("std::"):
            if name in ("move", "forward", "as_const", "static_pointer_cast", "addressof", "ref", "cref"):
                if name == "addressof":
                    return [(s, ("addr", vs[0][1]) if vs[0][0] == "L" else vs[0])]
                return [(s, vs[0])]
            if not vs and "numeric_limits<" in q:
                return [(s, ("app", q[q.index("numeric_limits<"):], NOTHING, ()))]
            if name == "bind" and len(vs) >= 2:
                return [(s, ("bindf", self.rv(vs[0], s), tuple(self.rv(x, s) for x in vs[1:])))]
            if name == "swap" and len(vs) == 2 and vs[0][0] == "L" and vs[1][0] == "L":
                a, b = self.rv(vs[0], s), self.rv(vs[1], s)
                self.write(s, vs[0][1], b, line, op="swap")
                self.write(s, vs[1][1], a, line, op="swap")
                return [(s, NOTHING)]
            if name == "exchange" and len(vs) == 2 and vs[0][0] == "L":
                a, b = self.rv(vs[0], s), self.rv(vs[1], s)
                self.write(s, vs[0][1], b, line, op="exchange")
                return [(s, a)]
            if name in ("min", "max") and len(vs) >= 2:
                a, b = self.rv(vs[0], s), self.rv(vs[1], s)
                if a == b:
                    return [(s, a)]
                if is_num(a) and is_num(b):
                    return [(s, lit(min(a[1], b[1]) if name == "min" else max(a[1], b[1])))]
                r = (name, tuple(sorted((a, b), key=repr)))
                if int_like(a) and int_like(b):
                    _intatoms[r] = True
                return [(s, r)]
            if name in ("min", "max") and len(vs) == 1:
                v = self.rv(vs[0], s)
                if v[0] == "list":
                    return [(s, (name, tuple(sorted(v[1], key=repr))))]
            if name in ("make_unique", "make_shared"):
                t = strip_t(e.get("mt", "?"))
                if t in self.p.rec and "mk" in e:
                    g = self.p.find(e["mk"]["id"], s.unit)
                    if g:
                        return [(s2, ("new", t, v)) for s2, v in self.construct(t, e["mk"], vs, s, line)]
                    if len(vs) == 1:  # implicit copy construction
                        return [(s, ("new", t, self.rv(vs[0], s)))]
                return [(s, ("new", t, ("args", tuple(self.rv(v, s) for v in vs))))]
            if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "size", "ssize", "data", "empty", "crbegin", "crend") and len(vs) == 1:
                r = self.container_method(name.replace("ssize", "size"), vs[0], [], s, line, e)
                if r is not None:
                    return r
            return self.algorithm(name, vs, s, line, e)
        g = self.p.find(f["id"], s.unit)
        if g:
            return self.invoke(g, f, None, vs, s, line)
        return self.opaque_call(f, name, None, vs, s, line)

    def algorithm(self, name, vs, s, line, e):
        """std algorithm; function-valued arguments are run as a generic iteration"""
        rvs = [self.rv(v, s) for v in vs]
        lams = [v for v in rvs if v[0] in ("lambda", "fn")]
        if name in ("move", "forward"):
            return [(s, vs[0])]
        if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "size", "ssize", "data", "empty") and len(vs) == 1:
            r = self.container_method(name.replace("ssize", "size"), vs[0], [], s, line, e)
            if r is not None:
                return r
        if name in VALUE_STD:
            return [(s, ("app", name, NOTHING, tuple(rvs)))]
        # range designated by (begin,end) or by a range
        rng = None
        if rvs and rvs[0][0] in ("iter", "riter"):
            rng = rvs[0][1]
            if rvs[0][2] != ZERO:
                rng = ("drop", rng, rvs[0][2])
            if rvs[0][0] == "riter":
                rng = ("reverse", rng)
        elif vs:
            rng = self.container_of(vs[0], s)
        if lams and name not in ("sort", "stable_sort", "visit"):
            lam = lams[0]
            lid = next(self.ctr)
            k = ("k", lid)
            nargs = None

            def body(s2):
                el = self.element(rng, k, s2)
                n = self.lam_arity(lam)
                args = [el]
                if n == 2:
                    oth = None
                    if name in ("transform", "equal", "transform_reduce", "inner_product", "mismatch"):
                        cand = [v for v in rvs[1:] if v[0] in ("iter",)]
                        if name == "transform" and len(cand) >= 2:
                            oth = self.element(cand[1][1], k, s2)
                    acc = ("hav", next(self.ctr))
                    body.acc = acc
                    args = [acc, el] if name in ("accumulate", "reduce") else [el, oth or ("hav", next(self.ctr))]
                elif n != 1:
                    args = [el] * (n or 1)
                return self.apply(lam, args, s2, line)

            return self.algo_loop(name, rng, body, lid, vs, rvs, s, line)
        if name in ("fill", "copy", "iota", "sort", "stable_sort", "reverse", "rotate", "shuffle", "fill_n", "copy_n",
                    "partition", "nth_element", "unique", "remove", "remove_if", "iter_swap", "swap_ranges", "move_backward"):
            tgt = None
            if name in ("copy", "copy_n", "move_backward"):
                d = rvs[-1]
                if d[0] in ("iter", "riter"):
                    tgt = d[1]
                    if tgt[0] == "deref" and tgt[1][0] == "app" and tgt[1][1].startswith("ctor:") and "Iterator" in tgt[1][1] \
                            and tgt[1][3] and tgt[1][3][0][0] == "addr" and tgt[1][3][0][1][0] == "idx":
                        tgt = tgt[1][3][0][1][1]        # strided iterator over a buffer
            elif rng is not None:
                tgt = rng
            if tgt is not None and not contains(tgt, lambda x: x[0] == "app"):
                cmp = None
                if name in ("sort", "stable_sort") and lams:
                    cmp = self.comparator(lams[0], rng, s, line)
                s.ev.append(Ev("algo", tgt, None, None, line, fn=self.fname(), name=name, args=rvs, cmp=cmp))
                self.havoc(s, tgt)
            elif name in ("copy", "copy_n", "move_backward"):
                s.ev.append(Ev("lost", None, None, None, line, fn=self.fname(), name=name, args=rvs))
            else:
                s.ev.append(Ev("obscure", None, None, None, line, fn=self.fname(), name=name, args=rvs))
            return [(s, ("app", name, NOTHING, tuple(rvs)))]
        if name in ("erase_if", "erase") and vs and vs[0][0] == "L":
            s.ev.append(Ev("cont", vs[0][1], None, None, line, fn=self.fname(), m=name, args=rvs[1:]))
            self.havoc(s, vs[0][1])
            return [(s, NOTHING)]
        if name not in PURE_STD:
            for v in vs:
                if v[0] == "L" and v[1][0] not in ("var", "global") and name in ("modf", "advance"):
                    self.havoc(s, v[1])
        if name == "advance" and vs[0][0] == "L":
            self.write(s, vs[0][1], self.binop("+", rvs[0], rvs[1]), line)
            return [(s, NOTHING)]
        if name in ("next", "prev") and rvs and rvs[0][0] in ("iter", "riter"):
            by = rvs[1] if len(rvs) > 1 else lit(1)
            return [(s, self.binop("+" if name == "next" else "-", rvs[0], by))]
        if name == "distance" and len(rvs) == 2:
            return [(s, self.binop("-", rvs[1], rvs[0]))]
        if rng is not None:
            return [(s, ("app", name, NOTHING, (("rng", rng),) + tuple(rvs[1:] if rvs[0][0] not in ("iter", "riter") else rvs[2:])))]
        return [(s, ("app", name, NOTHING, tuple(rvs)))]

    def comparator(self, lam, rng, s, line):
        """(conds, value) of comparing two generic elements A, B"""
        esc, self.escapes = self.escapes, []
        try:
            s2 = s.copy()
            s2.ev = []
            nc = len(s2.conds)
            a = self.element(rng, ("k", "A"), s2)
            b = self.element(rng, ("k", "B"), s2)
            return [(tuple(x.conds[nc:]), self.rv(v, x)) for x, v in self.apply(lam, [a, b], s2, line)]
        except Capped:
            return None
        finally:
            self.escapes = esc

    def lam_arity(self, lam):
        if lam[0] == "lambda":
            for x in lam[1]:
                g = self.p.fn.get((lam[2], x))
                if g:
                    return len(g["params"])
        if lam[0] == "fn":
            g = self.p.find(lam[1])
            if g:
                return len(g["params"])
        return 1

    def algo_loop(self, name, rng, body, lid, vs, rvs, s, line):
        esc, self.escapes = self.escapes, []
        s0 = s.copy()
        # discover what the body changes, then run the generic iteration
        changed = self.probe(s0, lambda s2: body(s2))
        s1 = s.copy()
        for l in changed:
            self.havoc(s1, l)
        s1.ev = []
        nc = len(s1.conds)
        base = s1.copy()
        outs = body(s1)
        paths = []
        for s2, v in outs:
            v = self.rv(v, s2)
            paths.append(Path(s2.conds[nc:], s2.ev, ("ret", v), s2))
        thr = []
        for s2, o in self.escapes:
            paths.append(Path(s2.conds[nc:], s2.ev, o, s2))
            thr.append((s2, o))
        self.escapes = esc
        ev = Ev("loop", None, None, None, line, fn=self.fname(), id=lid, range=rng, kind=name, paths=paths, cond=None)
        for s2, o in thr:
            s3 = s.copy()
            s3.conds = s2.conds
            s3.ev = s.ev + [Ev("loop", None, None, None, line, fn=self.fname(), id=lid, range=rng, kind=name, paths=paths, cond=None, partial=True)]
            self.escapes.append((s3, o))
        s.ev.append(ev)
        for l in changed:
            self.havoc(s, l)
        if name == "erase_if" and vs[0][0] == "L":
            s.ev.append(Ev("cont", vs[0][1], None, None, line, fn=self.fname(), m="erase_if", args=[]))
            self.havoc(s, vs[0][1])
        if name in ("transform", "generate", "generate_n"):
            d = [v for v in rvs if v[0] in ("iter", "riter")]
            if d:
                tgt = d[-1][1] if name == "transform" else d[0][1]
                s.ev.append(Ev("algo", tgt, None, None, line, fn=self.fname(), name=name, args=[]))
                self.havoc(s, tgt)
        res = (("rng", rng), ("body", tuple((tuple(p.conds), p.end[1] if p.end[0] == "ret" else p.end) for p in paths)))
        if name in ("accumulate", "reduce") and hasattr(body, "acc") and len(rvs) == 4:
            res += (("carried", body.acc, rvs[2], ("k", lid)),)
        res = ("app", name, NOTHING, res)
        return [(s, res)]

    def probe(self, s0, body):
        """set of roots of locations body may change (s0 is scratch)"""
        before_env = dict(s0.env)
        before = dict(s0.store)
        n0 = len(s0.ev)
        changed = set()
        esc = self.escapes
        self.escapes = []
        outs = body(s0)
        allst = [x[0] for x in outs] + [x[0] for x in self.escapes]
        self.escapes = esc
        for s2 in allst:
            for k, v in s2.store.items():
                if k in before and before[k] != v and k[0] in ("var", "slocal", "heap", "tmp") or (k not in before and k[0] != "var" and k[0] != "tmp" and not under_any(k, "tmp")):
                    changed.add(k if k[0] != "idx" else k[1])
            for k in before:
                if k not in s2.store:
                    changed.add(k if k[0] == "var" else loc_root(k))
            for k, n in s2.epoch.items():
                if s0.epoch.get(k) != n or k not in s0.epoch:
                    changed.add(k)
            for x in flat(s2.ev[n0:]):
                if x.loc is not None and x.k in ("w", "push", "cont", "algo"):
                    changed.add(loc_root(x.loc) if x.k == "w" else x.loc)
        out = set()
        for l in changed:
            while l[0] == "idx":
                l = l[1]
            out.add(l)
        return {l for l in out if l[0] not in ("reverse", "drop", "take", "iota", "tview")}

    def element(self, rng, k, st):
        if rng is None:
            return ("hav", next(self.ctr))
        v = self.index(rng, k)
        if v[0] == "pending_tview":
            _, (_, base, lam), pos = v
            el = self.element(base, pos, st)
            r = self.apply(lam, [el], st, None)
            return r[0][1] if r else ("hav", next(self.ctr))
        return v

    def elements(self, rng, k, st):
        """the element at k of a range -> list of (state, value): a transformed range has one per path of its function"""
        if rng is not None:
            v = self.index(rng, k)
            if v[0] == "pending_tview":
                _, (_, base, lam), pos = v
                out = []
                for s2, el in self.elements(base, pos, st):
                    out += self.apply(lam, [el], s2, None)
                return out or [(st, ("hav", next(self.ctr)))]
        return [(st, self.element(rng, k, st))]

    def settle(self, v, st):
        """value of an element of a lazily transformed range, when its function is a plain expression"""
        if v[0] == "pending_tview" and v[1][2][0] in ("lambda", "bindf", "fn", "obj"):
            _, (_, base, lam), pos = v
            s2 = st.copy()
            s2.ev = []
            nc = len(s2.conds)
            esc, self.escapes = self.escapes, []
            try:
                r = self.elements(("tview", base, lam), pos, s2)
                bad = bool(self.escapes)
            except Capped:
                r, bad = [], True
            finally:
                self.escapes = esc
            if not bad and len(r) == 1 and not r[0][0].ev and len(r[0][0].conds) == nc:
                w = self.rv(r[0][1], r[0][0])
                if w[0] != "pending_tview":
                    return w
        return v

    def e_mcall(self, e, st):
        f = e.get("f")
        out = []
        for s, o in self.any(e["o"], st):
            ot = e.get("ot", "")
            if ot.rstrip().endswith("*"):
                o = self.deref(self.rv(o, s), s)
            for s2, vs in self.args(e["a"], s):
                out += self.method(f, o, vs, s2, e, ot)
        return out

    def method(self, f, o, vs, s, e, ot):
        line = e["l"]
        name = f["n"] if f else "?"
        cls = f.get("cls", "") if f else ""
        g = self.p.find(f["id"], s.unit) if f else None
        if g and name in ITER_METHODS and "terator" not in cls:
            c = self.container_of(o, s)
            if vs:  # Array::begin(state): iterate over the array's view of that state
                c = ("deref", ("app", "view", o[1] if o[0] == "L" else o, tuple(self.rv(v, s) for v in vs)))
            if name in ("begin", "cbegin"):
                return [(s, ("iter", c, ZERO))]
            if name in ("end", "cend"):
                return [(s, ("iter", c, self.size_term(c, s)))]
            return [(s, ("riter", c, ZERO if "begin" in name else self.size_term(c, s)))]
        if name == "data_ptr":
            ol = o[1] if o[0] == "L" else ("deref", o)
            return [(s, ("addr", ("data", ol)))]
        if not g and not f.get("repo"):
            if name == "get" and ("unique_ptr" in cls or "shared_ptr" in cls):
                v = self.rv(o, s)
                # state[node.topological_index()].get() is the node's data object
                d = self.data_of(v)
                return [(s, d if d else v)]
            if name == "reset" and ("unique_ptr" in cls or "shared_ptr" in cls) and o[0] == "L":
                nv = self.rv(vs[0], s) if vs else ("null",)
                self.write(s, o[1], nv, line, op="reset")
                return [(s, NOTHING)]
            if name == "emplace" and cls.startswith("std::optional<") and o[0] == "L":
                t = cls[len("std::optional<"):-1]
                ct = [g for g in self.p.methods_of(t) if g.get("isctor") and len(g["params"]) == len(vs)] if t in self.p.rec else []
                if len(ct) == 1:
                    out = []
                    for s2, v in self.construct(t, ct[0], vs, s, line):
                        self.write(s2, o[1], ("new", t, v), line, op="reset")
                        out.append((s2, NOTHING))
                    return out
            if name in ("value_or",):
                return [(s, ("app", "value_or", NOTHING, (self.rv(o, s), self.rv(vs[0], s))))]
            if name in ("value", "operator*") and "optional" in cls:
                return [(s, self.rv(o, s))]
            if (name == "has_value" or name == "operator bool") and cls.startswith("std::optional<"):
                v = self.rv(o, s)
                return [(s, self.engaged(v) or self.truth(v))]
            if name == "has_value" or name == "operator bool":
                return [(s, self.truth(self.rv(o, s)))]
            if name == "base":
                return [(s, self.rv(o, s))]
            if name.startswith("operator ") and not vs:
                return [(s, self.rv(o, s))]
            r = self.container_method(name, o, vs, s, line, e, cls)
            if r is not None:
                return r
        # virtual dispatch on a known dynamic class
        if f.get("virt") and not e.get("qual"):
            dc = None
            if o[0] == "L":
                dc = s.dyn.get(o[1])
            if dc:
                h = self.p.resolve_virtual(dc, f["id"])
                if h:
                    return self.invoke(h, f, o, vs, s, line)
                return self.opaque_call(f, name, o, vs, s, line)
            return self.opaque_call(f, name, o, vs, s, line)
        if g:
            return self.invoke(g, f, o, vs, s, line)
        return self.opaque_call(f, name, o, vs, s, line)

    def data_of(self, v):
        """state[X.topological_index()] -> address of data(X)"""
        if v[0] == "load" and v[1][0] == "idx" or v[0] == "at":
            i = v[1][2] if v[0] == "load" else v[2]
            if i[0] == "load" and i[1][0] == "mem" and i[1][2] == "topological_index_":
                return ("addr", ("data", i[1][1]))
            if i[0] == "app" and i[1] == "topological_index":
                return ("addr", ("data", i[2]))
        return None

    def size_term(self, c, st):
        if c[0] == "reverse":
            return self.size_term(c[1], st)
        if c[0] == "drop":
            return add(self.size_term(c[1], st), c[2], -1)
        k = ("mem", c, "#size")
        if k in st.store:
            return st.store[k]
        return ("size", c, self.epoch_of(st, k))

    def set_size(self, c, v, st):
        st.store[("mem", c, "#size")] = v

    def container_method(self, name, o, vs, s, line, e, cls=""):
        if cls and not (is_container(cls) or "_view" in cls or "view_interface" in cls or "span" in cls or "string" in cls or "_Vector" in cls or "__detail" in cls):
            return None
        c = self.container_of(o, s)
        islv = o[0] == "L"
        if name == "size":
            v = self.rv(o, s) if islv else o
            if v[0] == "list":
                return [(s, lit(len(v[1])))] if ("mem", c, "#size") not in s.store else [(s, self.size_term(c, s))]
            if v[0] == "span":
                return [(s, v[2])]
            return [(s, self.size_term(c, s))]
        if name == "empty":
            return [(s, cmp_("==", self.size_term(c, s), ZERO, True))]
        if name in ("begin", "cbegin"):
            if c[0] == "reverse":
                return [(s, ("riter", c[1], ZERO))]
            return [(s, ("iter", c, ZERO))]
        if name in ("end", "cend"):
            if c[0] == "reverse":
                return [(s, ("riter", c[1], self.size_term(c[1], s)))]
            return [(s, ("iter", c, self.size_term(c, s)))]
        if name in ("rbegin", "crbegin"):
            return [(s, ("riter", c, ZERO))]
        if name in ("rend", "crend"):
            return [(s, ("riter", c, self.size_term(c, s)))]
        if name == "data":
            return [(s, ("addr", ("idx", c, ZERO)))]
        if name == "front":
            return [(s, self.index(c, ZERO))]
        if name == "back":
            return [(s, self.index(c, add(self.size_term(c, s), lit(1), -1)))]
        if name == "at":
            return [(s, self.index(c, self.rv(vs[0], s)))]
        if name in ("count", "contains", "find"):
            return [(s, ("app", name, ("load", c, self.epoch_of(s, c)), tuple(self.rv(v, s) for v in vs)))]
        if name in ("subspan", "first", "last"):
            a = [self.rv(v, s) for v in vs]
            if name == "subspan":
                return [(s, ("drop", c, a[0]))]
            return [(s, ("app", name, NOTHING, (("rng", c),) + tuple(a)))]
        if name == "reserve" or name == "shrink_to_fit":
            return [(s, NOTHING)]
        if not islv:
            return [(s, ("app", name, NOTHING, (o,) + tuple(self.rv(v, s) for v in vs)))]
        rvs = [self.rv(v, s) for v in vs]
        if name in ("push_back", "emplace_back", "push", "emplace", "insert", "push_front", "emplace_front", "append"):
            if name in ("insert", "emplace") and "vector" in cls:
                s.ev.append(Ev("cont", c, None, None, line, fn=self.fname(), m=name, args=rvs))
                sz = self.size_term(c, s)
                self.havoc(s, c)
                return [(s, ("app", "it", NOTHING, ()))]
            if name in ("insert", "emplace"):
                s.ev.append(Ev("push", c, rvs[-1] if rvs else None, None, line, fn=self.fname(), m=name, args=rvs))
                before = ("load", c, self.epoch_of(s, c))
                self.havoc(s, c)
                return [(s, ("app", "inserted", before, tuple(rvs)))]
            et = elem_type(cls)
            val = rvs[0] if len(rvs) == 1 else None
            outs = [(s, val)]
            ptr = bool(re.match(r"^(const )?std::\w+<[^<>,]*\*(const)?\s*[,>]", cls))
            if val is None or (not ptr and et in self.p.rec and val[0] not in ("obj", "load", "fld", "at")):
                rec = self.p.rec.get(et)
                ctor = None
                if rec:
                    for m in self.p.methods_of(et):
                        if m.get("isctor") and len(m["params"]) == len(rvs):
                            ctor = m
                if ctor:
                    outs = self.construct(et, ctor, vs, s, line)
                else:
                    outs = [(s, ("app", "ctor:" + et, NOTHING, tuple(rvs)))]
            res = []
            for s2, v in outs:
                sz = self.size_term(c, s2)
                s2.ev.append(Ev("push", c, v, None, line, fn=self.fname(), m=name, args=rvs, at=sz))
                loc = ("idx", c, sz)
                self.kill(s2, loc)
                s2.store[loc] = v
                self.set_size(c, add(sz, lit(1)), s2)
                res.append((s2, ("L", loc)))
            return res
        if name in ("pop_back", "pop", "pop_front"):
            sz = self.size_term(c, s)
            s.ev.append(Ev("cont", c, None, None, line, fn=self.fname(), m=name, args=[], at=add(sz, lit(1), -1),
                           old=self.load(s, ("idx", c, add(sz, lit(1), -1)))) if False else
                        Ev("cont", c, None, self.load(s, ("idx", c, add(sz, lit(1), -1))), line, fn=self.fname(), m=name, args=[], at=add(sz, lit(1), -1)))
            self.set_size(c, add(sz, lit(1), -1), s)
            return [(s, NOTHING)]
        if name in ("clear", "resize", "assign", "erase", "swap", "merge", "extract"):
            s.ev.append(Ev("cont", c, None, None, line, fn=self.fname(), m=name, args=rvs, sizebefore=self.size_term(c, s)))
            if name == "resize":
                if s.store.get(c, NOTHING)[0] == "list":
                    del s.store[c]
                self.set_size(c, rvs[0], s)
            elif name == "clear":
                self.havoc(s, c)
                self.set_size(c, ZERO, s)
            else:
                self.havoc(s, c)
                if name == "swap" and vs and vs[0][0] == "L":
                    s.ev.append(Ev("cont", vs[0][1], None, None, line, fn=self.fname(), m="swap", args=[]))
                    self.havoc(s, vs[0][1])
            return [(s, ("app", name, NOTHING, tuple(rvs)))]
        return None

    def invoke(self, g, f, o, vs, s, line):
        """inline function g on object o (('L',loc) / value / None)"""
        name = g["n"]
        if name in self.noinline or g["q"] in self.noinline or (self.inline_pred and not self.inline_pred(g)):
            return self.opaque_call(f, name, o, vs, s, line)
        saved = s.this
        if o is not None:
            if o[0] == "L":
                s.this = o[1]
            else:
                loc = ("tmp", "val", next(self.ctr))
                s.store[loc] = o
                s.this = loc
        s_backup_this = s.this
        try:
            paths = self.call_body(g, s, vs)
        except RecursionError:
            s.this = saved
            return self.opaque_call(f, name, o, vs, s, line)
        return self.finish(paths, g, saved)

    def opaque_call(self, f, name, o, vs, s, line):
        rvs = [self.rv(v, s) for v in vs]
        ol = None
        if o is not None:
            ol = o[1] if o[0] == "L" else o
            if o[0] == "L" and o[1][0] == "var" and (f or {}).get("cls", "").endswith(("::SizeInfo", "::Slice")):
                ol = self.load(s, o[1])     # a value: what the local holds at this point
        const = bool(f and (f.get("const") or f.get("static")))
        s.ev.append(Ev("call", None, None, None, line, fn=self.fname(), name=name, args=rvs, obj=ol, f=f, lv=[v[1] if v[0] == "L" else None for v in vs]))
        if o is not None and o[0] == "L" and not const and f and f.get("cls") and not f.get("isctor"):
            if ol[0] != "deref":
                self.havoc(s, ol)
        if f and f.get("pt"):
            for v, t in zip(vs, f["pt"]):
                if v[0] == "L" and t.rstrip().endswith("&") and not t.startswith("const") and not t.rstrip().endswith("&&"):
                    if v[1][0] == "var":
                        self.havoc(s, v[1])
        return [(s, ("app", name, ol if ol is not None else NOTHING, tuple(rvs)))]

    # -------------------------------------------------------------------- conditions
    def branch(self, e, st):
        """-> (true states, false states)"""
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            t1, f1 = self.branch(e["x"], st)
            T, F = [], []
            if e["op"] == "&&":
                F += f1
                for s in t1:
                    a, b = self.branch(e["y"], s)
                    T += a
                    F += b
            else:
                T += t1
                for s in f1:
                    a, b = self.branch(e["y"], s)
                    T += a
                    F += b
            return T, F
        if k == "un" and e["op"] == "!":
            t, f = self.branch(e["e"], st)
            return f, t
        if k == "cast" and e.get("t") == "bool" and e["e"]["k"] in ("bin", "un"):
            return self.branch(e["e"], st)
        T, F = [], []
        for s, v in self.ev(e, st):
            c = self.truth(v)
            a, b = self.split(c, s)
            T += a
            F += b
        return T, F

    def split(self, c, s):
        if c[0] == "lit":
            return ([s], []) if c[1] else ([], [s])
        if c[0] == "and":
            T, F = [s], []
            for x in c[1]:
                n = []
                for s2 in T:
                    a, b = self.split(x, s2)
                    n += a
                    F += b
                T = n
            return T, F
        if c[0] == "or":
            T, F = [], [s]
            for x in c[1]:
                n = []
                for s2 in F:
                    a, b = self.split(x, s2)
                    T += a
                    n += b
                F = n
            return T, F
        if c[0] == "not" and c[1][0] in ("and", "or"):
            a, b = self.split(c[1], s)
            return b, a
        if c[0] == "cond":
            # (a ? b : d) as a condition
            T, F = [], []
            t, f = self.split(self.truth(c[1]), s)
            for s2 in t:
                a, b = self.split(self.truth(c[2]), s2)
                T += a
                F += b
            for s2 in f:
                a, b = self.split(self.truth(c[3]), s2)
                T += a
                F += b
            return T, F
        n = mk_not(c)
        d = decided(s.conds, c, n)
        if d is True:
            return [s], []
        if d is False:
            return [], [s]
        s2 = s.copy()
        s.conds.append(c)
        s2.conds.append(n)
        return [s], [s2]

    # -------------------------------------------------------------------- statements
    def ex(self, b, st):
        """-> list of (state, outcome)"""
        k = b["k"]
        return getattr(self, "s_" + k, self.s_unknown)(b, st)

    def with_escapes(self, fn):
        esc, self.escapes = self.escapes, []
        try:
            r = fn()
            r = list(r) + [(s, o) for s, o in self.escapes]
        finally:
            self.escapes = esc
        return r

    def s_unknown(self, b, st):
        return [(st, ("normal",))]

    s_nop = s_unknown

    def s_expr(self, b, st):
        return self.with_escapes(lambda: [(s, ("normal",)) for s, _ in self.any(b["e"], st)])

    def s_seq(self, b, st):
        live = [st]
        done = []
        for x in b["b"]:
            nxt = []
            for s in live:
                for s2, o in self.ex(x, s):
                    if o[0] == "normal":
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            live = nxt
            if len(live) + len(done) > self.maxpaths:
                raise Capped
            if not live:
                break
        return done + [(s, ("normal",)) for s in live]

    def bind_var(self, v, val, st):
        key = (st.unit, v["id"])
        if v.get("ref"):
            if val[0] == "L":
                st.env[key] = ("ref", val[1])
            else:
                loc = ("var", key, v["n"])
                st.env[key] = ("ref", loc)
                self.kill(st, loc)
                st.store[loc] = val
            return
        if v.get("static"):
            st.env[key] = ("ref", ("slocal", self.fname(), v["n"]))
            return
        loc = ("var", key, v["n"])
        st.env[key] = ("ref", loc)
        r = self.rv(val, st)
        self.kill(st, loc)
        st.epoch.pop(loc, None)
        if r[0] == "list" and r[1] == ():
            self.set_size(loc, ZERO, st)
        elif r[0] == "list":
            self.set_size(loc, lit(len(r[1])), st)
        elif r[0] == "load" and is_container(strip_t(v.get("t", ""))) and not "span" in v.get("t", ""):
            self.set_size(loc, self.size_term(r[1], st), st)
        st.store[loc] = r
        if is_int_type(v.get("t")) and r[0] not in ("lit", "lin"):
            _intatoms[r] = True

    def s_decl(self, b, st):
        def go():
            sts = [st]
            for v in b["b"]:
                nxt = []
                for s in sts:
                    if "init" in v:
                        for s2, val in self.any(v["init"], s):
                            if v["k"] == "decomp":
                                self.bind_decomp(v, val, s2)
                            else:
                                self.bind_var(v, val, s2)
                            nxt.append(s2)
                    else:
                        key = (s.unit, v["id"])
                        loc = ("var", key, v["n"]) if not v.get("static") else ("slocal", self.fname(), v["n"])
                        s.env[key] = ("ref", loc)
                        self.kill(s, loc)
                        s.store.pop(loc, None)
                        if is_container(strip_t(v.get("t", ""))):
                            s.store[loc] = ("list", ())
                            self.set_size(loc, ZERO, s)
                        nxt.append(s)
                sts = nxt
            return [(s, ("normal",)) for s in sts]
        return self.with_escapes(go)

    def bind_decomp(self, v, val, st):
        t = strip_t(v["t"])
        for bnd in v["b"]:
            key = (st.unit, bnd["id"])
            comp = ("mem", None, bnd["field"]) if "field" in bnd else ("idx", None, lit(bnd["i"]))
            if val[0] == "L":
                if not v.get("ref") and val[1][0] != "var":
                    x = self.select(self.rv(val, st), comp, st)
                    st.env[key] = x if x[0] != "load" else ("ref", x[1]) if x[2] == self.epoch_of(st, x[1]) and x[1] not in st.store else x
                    loc = ("var", key, bnd["n"])
                    st.env[key] = ("ref", loc)
                    st.store[loc] = x
                else:
                    st.env[key] = ("ref", (comp[0], val[1], comp[2]))
            else:
                loc = ("var", key, bnd["n"])
                st.env[key] = ("ref", loc)
                st.store[loc] = self.select(val, comp, st)

    def s_if(self, b, st):
        def go():
            sts = [st]
            out = []
            if "init" in b:
                n = []
                for s in sts:
                    for s2, o in self.ex(b["init"], s):
                        (n.append(s2) if o[0] == "normal" else out.append((s2, o)))
                sts = n
            for s in sts:
                if "cv" in b and "init" in b["cv"]:
                    for s2, val in self.any(b["cv"]["init"], s):
                        self.bind_var(b["cv"], val, s2)
                        T, F = self.branch(b["c"], s2)
                        for x in T:
                            out += self.ex(b["x"], x)
                        for x in F:
                            out += self.ex(b["y"], x) if "y" in b else [(x, ("normal",))]
                    continue
                T, F = self.branch(b["c"], s)
                for x in T:
                    out += self.ex(b["x"], x)
                for x in F:
                    out += self.ex(b["y"], x) if "y" in b else [(x, ("normal",))]
            return out
        return self.with_escapes(go)

    def s_ret(self, b, st):
        if "e" not in b:
            return [(st, ("ret", NOTHING, b["l"]))]
        f = self.stack[-1]
        isref = f["rt"].rstrip().endswith("&")
        tobool = b["e"]["k"] == "icast" and b["e"].get("t") == "bool"
        return self.with_escapes(lambda: [(s, ("ret", v if isref else as_truth(self.ret_value(v, s, f)) if tobool else self.ret_value(v, s, f), b["l"]))
                                         for s, v in self.any(b["e"], st)])

    def ret_value(self, v, s, f):
        # a returned span/view designates the container it views
        if v[0] == "L" and (f["rt"].startswith("std::span") or "_view" in f["rt"] or "View" in f["rt"]):
            return v if v[1][0] != "var" else self.rv(v, s)
        return self.rv(v, s)

    def s_break(self, b, st):
        return [(st, ("break", b["l"]))]

    def s_continue(self, b, st):
        return [(st, ("continue",))]

    def s_try(self, b, st):
        out = []
        for s, o in self.ex(b["b"], st):
            if o[0] == "throw" and b.get("h"):
                h = b["h"][0]
                s.ev.append(Ev("catch", None, None, None, b["l"], fn=self.fname()))
                out += self.ex(h["b"], s)
            else:
                out.append((s, o))
        return out

    def s_switch(self, b, st):
        def go():
            sts = [st]
            if "init" in b:
                sts = [s for s0 in sts for s, o in self.ex(b["init"], s0)]
            out = []
            # collect the cases of the body
            groups = []   # list of (labels, stmts)
            body = b["b"]["b"] if b["b"]["k"] == "seq" else [b["b"]]
            for x in body:
                labels = []
                y = x
                while y["k"] in ("case", "default"):
                    labels.append(y.get("c") if y["k"] == "case" else None)
                    y = y["b"]
                if labels:
                    groups.append((labels, [y]))
                elif groups:
                    groups[-1][1].append(x)
            for s in sts:
                for s2, v in self.ev(b["c"], s):
                    rest = s2
                    hasdef = False
                    for gi, (labels, stmts) in enumerate(groups):
                        for lb in labels:
                            if lb is None:
                                hasdef = gi
                                continue
                            lv = self.ev(lb, rest.copy())[0][1]
                            T, F = self.split(cmp_("==", v, lv, True), rest)
                            for x in T:
                                out += self.run_groups(groups, gi, x)
                            if not F:
                                rest = None
                                break
                            rest = F[0]
                        if rest is None:
                            break
                    if rest is not None:
                        if hasdef is not False:
                            out += self.run_groups(groups, hasdef, rest)
                        else:
                            out.append((rest, ("normal",)))
            return out
        return self.with_escapes(go)

    def run_groups(self, groups, gi, st):
        seq = {"k": "seq", "b": [x for _, ss in groups[gi:] for x in ss]}
        r = []
        for s, o in self.ex(seq, st):
            r.append((s, ("normal",) if o[0] == "break" else o))
        return r

    # loops ---------------------------------------------------------------
    def s_for(self, b, st):
        def go():
            out = []
            sts = [st]
            if "init" in b:
                sts = []
                for s, o in self.ex(b["init"], st):
                    (sts.append(s) if o[0] == "normal" else out.append((s, o)))
            for s in sts:
                out += self.loop(s, b, cond=b.get("c"), inc=b.get("inc"), body=b["b"], kind="for")
            return out
        return self.with_escapes(go)

    def s_while(self, b, st):
        return self.with_escapes(lambda: self.loop(st, b, cond=b["c"], inc=None, body=b["b"], kind="while"))

    def s_do(self, b, st):
        return self.with_escapes(lambda: self.loop(st, b, cond=None, inc=None, body=b["b"], kind="do", post=b["c"]))

    def s_rfor(self, b, st):
        def go():
            out = []
            sts = [st]
            if "init" in b:
                sts = [s for s, o in self.ex(b["init"], st)]
            for s in sts:
                for s2, r in self.any(b["r"], s):
                    rv_ = r if r[0] == "L" else r
                    c = self.container_of(rv_, s2)
                    if rv_[0] != "L" and rv_[0] == "list":
                        c = ("cval", rv_)
                    out += self.loop(s2, b, cond=None, inc=None, body=b["b"], kind="rfor", rng=c, var=b["v"])
            return out
        return self.with_escapes(go)

    def generic(self, st, before, changed, normals, barred, k):
        """state at the start of an arbitrary iteration, given what the iterations change"""
        steps = {}
        s1 = st.copy()
        for key in list(changed):
            init = before.get(key)
            if init is not None and normals and key[0] == "var" and key not in barred:
                ds = {self.delta(init, s2.store.get(key)) for s2 in normals}
                if len(ds) == 1 and None not in ds:
                    steps[key] = (init, ds.pop())
        roots = set()
        for key in changed:
            if key in steps:
                continue
            r = key
            while r[0] == "idx":
                r = r[1]
            if r[0] in ("mem",) and r[2] == "#size":
                roots.add(r)
                continue
            roots.add(r)
        for r in roots:
            init = before.get(r)
            self.havoc(s1, r)
            if r[0] == "var" and init is not None:
                # keep iterators in their container
                vals = {s2.store.get(r, NOTHING) for s2 in normals}
                if init[0] in ("iter", "riter") and all(v[0] == init[0] and v[1] == init[1] for v in vals):
                    s1.store[r] = (init[0], init[1], ("havi", next(self.ctr)))
                elif init[0] == "addr" and init[1][0] == "idx" and all(v[0] == "addr" and v[1][0] == "idx" and v[1][1] == init[1][1] for v in vals):
                    s1.store[r] = ("addr", ("idx", init[1][1], ("havi", next(self.ctr))))
                elif is_num(init) or init[0] == "lin" or atom_int(init):
                    s1.store[r] = ("havi", next(self.ctr))
                else:
                    s1.store[r] = ("hav", next(self.ctr)) if init[0] != "list" else init
                    if init[0] == "list":
                        del s1.store[r]
        for key, (init, d) in steps.items():
            s1.store[key] = self.advance(init, mul(lit(d), k))
        after = s1.copy()
        starts = {r: s1.store[r] for r in roots if r[0] == "var" and r in s1.store and s1.store[r][0] in ("hav", "havi")}
        s1.ev = []
        return steps, s1, after, starts, roots

    def loop(self, st, b, cond, inc, body, kind, rng=None, var=None, post=None):
        lid = next(self.ctr)
        k = ("k", lid)
        line = b["l"]

        def one(s):
            """generic iteration from s: -> (outs, false_states)"""
            T, F = ([s], [])
            if cond is not None:
                T, F = self.branch(cond, s)
            outs = []
            starts = [(x, None) for x in T] if var is None else [z for x in T for z in self.elements(rng, k, x)]
            for x, el in starts:
                if var is not None:
                    if var["k"] == "decomp":
                        self.bind_decomp(var, el, x)
                    else:
                        self.bind_var(var, el, x)
                for s2, o in self.ex(body, x):
                    if o[0] in ("normal", "continue"):
                        if inc is not None:
                            for s3, _ in self.any(inc, s2):
                                outs.append((s3, ("normal",)))
                        else:
                            outs.append((s2, ("normal",)))
                    else:
                        outs.append((s2, o))
            return outs, F

        # 1st pass: what changes, and which variables step linearly
        s0 = st.copy()
        n0 = len(s0.ev)
        esc, self.escapes = self.escapes, []
        outs0, _ = one(s0)
        thrown0 = list(self.escapes)
        self.escapes = esc
        before = st.store
        changed = set()
        for s2, o in outs0 + thrown0:
            for key, v in s2.store.items():
                if key in before:
                    if before[key] != v:
                        changed.add(key)
                elif key[0] not in ("var", "tmp", "heap") and not under_any(key, "tmp"):
                    # newly known memory; a var not in `before` is local to the body
                    if not (under_any_var(key) and root_var(key) not in before and ("mem", root_var(key), "#size") not in before):
                        changed.add(key)
            for key in before:
                if key not in s2.store:
                    changed.add(key)
            for key, n in s2.epoch.items():
                if st.epoch.get(key) != n:
                    changed.add(key)
            for x in flat(s2.ev[n0:]):
                if x.loc is not None and x.k in ("w", "push", "cont", "algo"):
                    changed.add(x.loc)
        normals = [s2 for s2, o in outs0 if o[0] == "normal"]
        barred = set()
        held = list(self.escapes)
        for attempt in range(4):
            steps, s1, after, starts, roots = self.generic(st, before, changed, normals, barred, k)
            self.escapes = list(held)
            nc = len(s1.conds)
            outs, F = one(s1)
            # the first pass started from the initial values, which may hide a change: look again
            late = set()
            for s2, o in outs:
                if o[0] != "normal":
                    continue
                for key, v in after.store.items():
                    if key[0] != "var" or key not in before:
                        continue
                    v2 = s2.store.get(key)
                    if key in steps:
                        if self.delta(v, v2) != steps[key][1]:
                            barred.add(key)
                            late.add(key)
                    elif key not in changed and v2 != v:
                        late.add(key)
            if not late:
                break
            changed |= late
        paths = []
        res = []
        loopev = Ev("loop", None, None, None, line, fn=self.fname(), id=lid, range=rng, kind=kind, paths=paths, cond=cond,
                    steps={kk: v[1] for kk, v in steps.items()})
        acc = loopev.x["acc"] = {}
        for s2, o in outs + self.escapes_take(esc):
            paths.append(Path(s2.conds[nc:], s2.ev, o, s2))
            if o[0] in ("ret", "throw"):
                s3 = s2.copy()
                s3.ev = st.ev + [Ev("loop", None, None, None, line, fn=self.fname(), id=lid, range=rng, kind=kind, paths=paths, cond=cond, partial=True, exit=len(paths) - 1)]
                res.append((s3, o))
        # continuation after the loop
        its = {r: after.store[r] for r in roots if r[0] == "var" and r in after.store and after.store[r][0] in ("iter", "riter")}
        post_state = after
        post_state.ev = st.ev + [loopev]
        trips = ("havi", next(self.ctr))
        loopev.x["trips"] = trips
        for key, (init, d) in steps.items():
            post_state.store[key] = self.advance(init, mul(lit(d), trips))
        for r in roots:
            if r[0] == "var" and r in post_state.store:
                v = post_state.store[r]
                if v[0] == "hav":
                    post_state.store[r] = ("hav", next(self.ctr))
                elif v[0] == "havi":
                    post_state.store[r] = ("havi", next(self.ctr))
                elif v[0] in ("iter", "riter"):
                    post_state.store[r] = (v[0], v[1], ("havi", next(self.ctr)))
            else:
                self.havoc(post_state, r)
        for r, start in starts.items():
            acc[r] = (start, before.get(r), post_state.store.get(r))
        loopev.x["iters"] = {r: (v, before.get(r), post_state.store.get(r)) for r, v in its.items()}
        if rng is None and cond is not None:
            nc2 = len(post_state.conds)
            scratch = post_state.copy()
            T, FF = self.branch(cond, scratch)
            if len(FF) == 1:
                post_state.conds = post_state.conds  # the exit condition is kept out of path conditions
            if not FF and not any(o[0] in ("break",) for _, o in outs):
                return res  # for(;;) without break
        res.append((post_state, ("normal",)))
        return res

    def escapes_take(self, esc):
        t = self.escapes[len(esc):] if self.escapes is not esc else []
        # escapes recorded since the loop started belong to its body
        t = list(self.escapes)
        self.escapes = []
        # restore anything recorded before
        keep = [x for x in esc if x in t]
        t = [x for x in t if x not in keep]
        self.escapes = keep
        return t

    def delta(self, a, b):
        if b is None:
            return None
        if a[0] in ("iter", "riter"):
            if b[0] != a[0] or a[1] != b[1]:
                return None
            d = add(b[2], a[2], -1)
        elif a[0] == "addr" and a[1][0] == "idx":
            if b[0] != "addr" or b[1][0] != "idx" or b[1][1] != a[1][1]:
                return None
            d = add(b[1][2], a[1][2], -1)
        else:
            d = add(b, a, -1)
        if is_num(d) and d[1] != 0:
            return d[1]
        return None

    def advance(self, a, d):
        if a[0] in ("iter", "riter"):
            return (a[0], a[1], add(a[2], d))
        if a[0] == "addr":
            return ("addr", ("idx", a[1][1], add(a[1][2], d)))
        return add(a, d)


def decided(conds, c, n):
    for x in conds:
        if x == c:
            return True
        if x == n:
            return False
    # linear bounds: d<=0 known, asked d'<=0 with d' = d + const
    if c[0] == "cmp" and c[1] in ("le", "lt"):
        cc, cp = lin_parts(c[2])
        for x in conds:
            if x[0] == "cmp" and x[1] in ("le", "lt", "eq"):
                xc, xp = lin_parts(x[2])
                if xp == cp:
                    # x: P + xc (<|<=|==) 0
                    if x[1] == "eq":
                        v = -xc + cc
                        return v < 0 if c[1] == "lt" else v <= 0
                    if cc < xc or (cc == xc and not (c[1] == "lt" and x[1] == "le")):
                        return True
                neg_ = {a: -k for a, k in xp.items()}
                if neg_ == cp:
                    # x: -P + xc <= 0 => P >= xc ; asked P + cc <= 0 i.e. P <= -cc
                    if x[1] == "eq":
                        v = xc + cc
                        return v < 0 if c[1] == "lt" else v <= 0
                    if xc > -cc or (xc == -cc and (c[1] == "lt" or x[1] == "lt")):
                        return False
        return None
    if c[0] == "cmp" and c[1] in ("eq", "ne"):
        cc, cp = lin_parts(c[2])
        np_ = {a: -k for a, k in cp.items()}
        for x in conds:
            if x[0] == "cmp":
                xc, xp = lin_parts(x[2])
                for q, sgn in ((cp, 1), (np_, -1)):
                    if xp == q:
                        # value of P: c asks P == -cc
                        val = -cc * sgn  # value of xp combination under equality
                        if x[1] == "eq" and val != -xc:
                            return c[1] == "ne"
                        if x[1] == "le" and val + xc > 0 or x[1] == "lt" and val + xc >= 0:
                            return c[1] == "ne"
    return None


def under_any(loc, kind):
    x = loc
    while True:
        if x[0] == kind:
            return True
        if x[0] in ("idx", "mem", "deref", "data") and isinstance(x[1], tuple):
            x = x[1]
        else:
            return False


def under_any_var(loc):
    return under_any(loc, "var")


def root_var(loc):
    x = loc
    while x[0] != "var":
        x = x[1]
    return x


def flat(events, loops=()):
    """all events, loop bodies included"""
    for e in events:
        yield e
        if e.k == "loop":
            for p in e.x["paths"]:
                yield from flat(p.events)


def flat_ctx(events, ctx=()):
    """(event, loop context, path conditions inside loops)"""
    for e in events:
        yield e, ctx
        if e.k == "loop":
            for p in e.x["paths"]:
                yield from flat_ctx(p.events, ctx + ((e, p),))


def elem_type(cls):
    m = re.match(r"^(?:const )?std::\w+<(.*)>$", cls)
    if not m:
        return ""
    inner = m.group(1)
    depth = 0
    for i, ch in enumerate(inner):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "," and depth == 0:
            return strip_t(inner[:i])
    return strip_t(inner)

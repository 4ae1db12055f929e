"""Reported sizes: sizeinfo(), its substitution and comparison, slices, read as formulas over a small lattice of sizes.

A symbol's size is described by formulas (multiplier, offset, bounds) taken from the source of its sizeinfo(); the number
of elements it really has for each size of the array it comes from is given by the meaning of the symbol (a slice is a
slice). The bounds have to include each of these sizes, and symbols judged of equal size must agree for each of them."""
import itertools
import math
from fractions import Fraction

from .engine import *
from .facts import program
from .txn import NS, short, concrete_nodes, node_methods, paths_of
from . import finite
from .finite import Unknown, num
from .transfer import Play, Op, It, Level, DATA, THIS, OutOfRange
from .incr import functor, members_of, where

FAILS = (Unknown, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, IndexError, RecursionError)
MAX = 2 ** 63 - 1
FAR = 23          # sizes of arrays without a bound are tried up to here


class IOpt(int):
    """a std::optional<ssize_t>"""

    def __new__(cls, v=None):
        r = int.__new__(cls, 0 if v is None else int(v))
        r.has = v is not None
        return r

    def __bool__(self):
        return self.has


class Sym(int, Op):
    """an array symbol (as a pointer: a number other than zero): size as a function of the size of its root"""
    count = 0

    def __new__(cls, *a, **k):
        Sym.count += 1
        return int.__new__(cls, 1000 + Sym.count)

    def __init__(self, name, root, row, fn, dims=None):
        dims = list(dims) if dims is not None else ([row] if row != 1 else [])
        Op.__init__(self, [], dynamic=True, shape=[-1] + dims)
        self.name, self.row, self.fn = name, row, fn
        self.top = root if root is not None else self
        self.info = None

    def __repr__(self):
        return self.name

    __str__ = __repr__
    __hash__ = object.__hash__

    def __bool__(self):
        return True


class Root(Sym):
    def __init__(self, lo, hi):
        super().__init__("array of %s to %s elements" % (lo or 0, "any number of" if hi is None else hi), None, 1, lambda n: n)
        self.sizes_ = list(range(lo or 0, (FAR if hi is None else hi) + 1))
        self.info = {"array_ptr": self, "multiplier": Fraction(1), "offset": 0, "min": IOpt(lo), "max": IOpt(hi)}


def info_of(v):
    if not isinstance(v, dict) or not {"array_ptr", "multiplier", "offset", "min", "max"} <= set(v):
        raise Unknown("not a size")
    m = v["multiplier"]
    if isinstance(m, dict):
        m = Fraction(int(m["numerator_"]), int(m["denominator_"]))
    out = {"array_ptr": v["array_ptr"], "multiplier": Fraction(m), "offset": int(num(v["offset"]))}
    for k in ("min", "max"):
        x = v[k]
        if not isinstance(x, int) or isinstance(x, bool):
            raise Unknown(k)
        out[k] = x if isinstance(x, IOpt) else IOpt(x)
    for x in out.values():
        if isinstance(x, Unknown):
            raise x
    return out


BUSY = object()


class SPlay(Play):
    sub = None      # Formulas

    memo = None

    def get(self, t):
        """terms are shared between paths: each is evaluated once as long as nothing is written"""
        if self.memo is None or t[0] in ("lit", "this"):
            return self.get0(t)
        m = self.memo.get(id(t))
        if m is not None and m[0] is t:
            if m[1] is BUSY:
                return self.get0(t)
            if isinstance(m[1], Exception):
                raise m[1]
            return m[1]
        self.memo[id(t)] = (t, BUSY)
        try:
            v = finite._ev(t, self.get)
        except FAILS as u:
            self.memo[id(t)] = (t, u)
            raise
        self.memo[id(t)] = (t, v)
        return v

    def get0(self, t):
        k = t[0]
        if k == "null":
            return 0
        if k == "load" and t[1][0] == "global":
            t = t[1]
            k = "global"
        if k == "global" and "nullopt" in t[1]:
            return IOpt(None)
        if k == "obj" and t[1].endswith("::fraction"):
            d = dict((f, self.ev(x)) for f, x in t[2])
            return Fraction(int(d["numerator_"]), int(d["denominator_"]))
        if k == "obj" and t[1].startswith("std::optional<"):
            return IOpt(None) if not t[2] else self.ev(t[2][0][1])
        if k == "app" and t[1] == "value_or" and len(t[3]) == 2:
            o = self.ev(t[3][0])
            return int(o) if not isinstance(o, IOpt) or o.has else self.ev(t[3][1])
        if k == "obj" and t[1].endswith("::SizeInfo"):
            return dict((f, self.ev(x)) for f, x in t[2])
        if k == "this":
            return self.members
        if k == "addr" and t[1] == THIS:
            return self.self_ if getattr(self, "self_", None) is not None else self.members
        if k == "tr" or k == "not":
            v = self.ev(t[1])
            return (not v) if k == "not" else bool(v)
        if k == "deref" and t[1][0] != "addr":
            return self.ev(t[1])
        if k == "fld":
            v = self.ev(t[1])
            if isinstance(v, Fraction) and t[2] in ("numerator_", "denominator_"):
                return v.numerator if t[2] == "numerator_" else v.denominator
            if isinstance(v, dict) and t[2] in v:
                return v[t[2]]
            raise Unknown(t)
        if k == "app" and t[1] in ("/", "*") and len(t[3]) == 2:
            a, b = self.ev(t[3][0]), self.ev(t[3][1])
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                if b == 0 and t[1] == "/":
                    raise Unknown(t)
                return Fraction(a) / Fraction(b) if t[1] == "/" else Fraction(a) * Fraction(b)
        if k == "cmp" and t[1] in ("eq", "ne") and t[2][0] == "lin" and t[2][1] == 0 and len(t[2][2]) == 2:
            a, b = [self.ev(x) for x, _ in t[2][2]]
            if isinstance(a, dict) != isinstance(b, dict):
                # a size and a number: equal if it is that fixed number
                a, b = (a, b) if isinstance(a, dict) else (b, a)
                a = info_of(a)
                return (a["multiplier"] == 0 and a["offset"] == num(b)) == (t[1] == "eq")
        if k == "app" and t[1] == "gcd":
            return math.gcd(*[int(self.n(x)) for x in t[3]])
        if k == "app" and t[2][0] != "none":
            n = t[1]
            if n in ("substitute", "sizeinfo", "operator==", "fit", "size", "numerator", "denominator"):
                try:
                    o = self.ev(t[2])
                except FAILS:
                    o = self.cont(t[2])
                if isinstance(o, Sym) and n == "sizeinfo":
                    return dict(o.info)
                if isinstance(o, Fraction):
                    return getattr(o, n)
                if isinstance(o, dict) and "multiplier" in o:
                    if n == "substitute":
                        return self.sub.substitute(o, int(self.n(t[3][0])) if t[3] else 1)
                    if n == "operator==":
                        return self.sub.equal(o, self.ev(t[3][0]))
                if isinstance(o, dict) and {"start", "stop", "step"} <= set(o):
                    if n == "fit":
                        a, b, c = sl(o).indices(max(0, int(self.n(t[3][0]))))
                        return {"start": a, "stop": b, "step": c, "fitted": True}
                    if n == "size" and o.get("fitted"):
                        return len(range(o["start"], o["stop"], o["step"]))
                if isinstance(o, list) and n == "size":
                    return len(o)
        return Play.get(self, t)

    def cont(self, c, e=0):
        if c[0] == "deref" and c[1][0] != "addr":
            return self.ev(c[1])
        return super().cont(c, e)

    def walk(self, v, ks, loc):
        if ks and isinstance(v, Fraction):
            if len(ks) == 1 and ks[0] in ("numerator_", "denominator_"):
                return v.numerator if ks[0] == "numerator_" else v.denominator
            raise Unknown(loc)
        if len(ks) > 1 and isinstance(v, dict) and ks[0] in v:
            return self.walk(v[ks[0]], ks[1:], loc)
        return super().walk(v, ks, loc)


def sl(o):
    a, b, c = (int(o[k]) for k in ("start", "stop", "step"))
    return slice(a if abs(a) < 2 ** 62 else None, b if abs(b) < 2 ** 62 else None, c)


class Formulas:
    """the source's own rules for sizes, as functions on descriptions"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.f = {}
        self.pas = {}
        for f in p.methods_of(NS + "SizeInfo"):
            if f["n"] in ("substitute", "operator==") and f.get("body") is not None:
                self.f[f["n"]] = f
                self.pas[f["n"]] = paths_of(p, f, NS + "SizeInfo") or []

        self.same = None
        for l in p.byid.values():
            g = l[0]
            if g["q"] == NS + "array_shape_equal" and g.get("body") is not None and len(g["params"]) == 2 and all("*" in x["t"] for x in g["params"]):
                self.same = g
                self.pas["same"] = paths_of(p, g, None) or []

    def play(self, members, params=(), self_=None):
        P = SPlay(members, params=dict(params), functors=lambda t: functor(self.p, t))
        P.sub = self
        P.self_ = self_
        return P

    def result(self, P, pas):
        P.levels.append(Level(0, P.snap()))
        P.memo = {}
        memo = {}
        hits = []
        for q in pas:
            hit = True
            for c in q.conds:
                h = memo.get(id(c))
                if h is None:
                    try:
                        h = bool(P.ev(c))
                    except FAILS as u:
                        h = u
                    memo[id(c)] = h
                if h is False:
                    hit = False
                    break
                if h is not True:
                    hit = h
            if hit is not False:
                hits.append((q, hit))
        if hits and all(h is True and q.end[0] == "ret" for q, h in hits):
            vs = [P.ev(q.end[1]) for q, h in hits]
            if all(v == vs[0] for v in vs[1:]):
                return vs[0]
        # values that come from local containers: follow the effects
        P.memo = None
        P.levels.pop()
        q = P.run([q for q, _ in hits])
        P.levels.append(Level(0, P.snap()))
        if q is None or q.end[0] != "ret":
            raise Unknown("no value")
        return P.ev(q.end[1])

    def key(self, i):
        return tuple((int(i[k]), i[k].has if isinstance(i[k], IOpt) else True) if k in ("min", "max") else (int(i[k]) if k == "array_ptr" and isinstance(i[k], Sym) else i[k]) for k in ("array_ptr", "multiplier", "offset", "min", "max"))

    def substitute(self, info, depth):
        info = info_of(info)
        k = (self.key(info), depth)
        if k not in self.memo:
            f = self.f.get("substitute")
            if f is None:
                raise Unknown("substitute")
            P = self.play(info, {f["params"][0]["n"]: depth})
            self.memo[k] = info_of(self.result(P, self.pas["substitute"]))
        return dict(self.memo[k])

    def shape_equal(self, x, y):
        """the library's judgement of two symbols"""
        if self.same is None:
            raise Unknown("array_shape_equal")
        a, b = [q["n"] for q in self.same["params"]]
        return bool(self.result(self.play({}, {a: x, b: y}), self.pas["same"]))

    def equal(self, a, b):
        f = self.f.get("operator==")
        if f is None:
            raise Unknown("operator==")
        return bool(self.result(self.play(info_of(a), {f["params"][0]["n"]: info_of(b)}), self.pas["operator=="]))


# ------------------------------------------------------------------ symbols
class Sizes:
    def __init__(self, p):
        self.p = p
        self.F = Formulas(p)
        self.m = {}
        for cls in concrete_nodes(p):
            for (n, pt), f in node_methods(p, cls).items():
                if n == "sizeinfo" and not pt:
                    self.m[cls] = (f, paths_of(p, f, cls) or [])

    def info(self, cls, members, self_=None):
        f, pas = self.m[cls]
        if not pas:
            raise Unknown("sizeinfo of " + short(cls))
        return info_of(self.F.result(self.F.play(members, self_=self_), pas))


def arr(dims, n=-1):
    d = ([n] if n is not None else []) + list(dims)
    st, s = [], 8
    for x in reversed(d):
        st.insert(0, s)
        s *= x if x > 0 else 1
    return {"ndim_": len(d), "shape_": d, "strides_": st, "size_": -1 if n == -1 else math.prod(d)}


SLICES = [(0, None, 1), (2, None, 1), (0, -2, 1), (1, -1, 1), (-3, None, 1), (0, 4, 1), (2, 5, 1), (3, 2, 1), (-2, -1, 1), (-4, 2, 1), (-3, 9, 1), (1, 3, 2), (0, None, 2), (1, None, 2),
          (0, None, 3), (2, None, 3), (0, -1, 3), (0, 5, 3), (-5, None, 2), (3, -1, 2), (0, 0, 1), (6, 3, 4)]
ROOTS = [(0, 5), (2, 7), (1, None), (None, None), (0, 1), (4, 4), (None, 6), (3, 9)]


def row_of(dims):
    return math.prod(dims)


def slices_of(S, cls, parent, sl_, dims):
    """a basic index: rows picked by a slice, `dims` elements of each"""
    a, b, c = sl_
    prow = row_of(parent.shape[1:])
    row = row_of(dims)
    what = "%r[%s:%s:%d]" % (parent, a or "", "" if b is None else b, c) + (" of rows of %d, %d elements of each" % (prow, row) if prow != 1 or row != 1 else "")
    s = Sym(what, parent.top, row, lambda n: len(range(parent.fn(n) // prow)[slice(a, b, c)]) * row, dims)
    mem = members_of(S.p, cls, [parent], arr(dims))
    mem["axis0_slice_"] = {"start": a, "stop": MAX if b is None else b, "step": c}
    mem["start_"] = 0
    s.info = S.info(cls, mem, s)
    return s


def picks_of(S, cls, parent, base_dims):
    """an advanced index: each element of the parent picks a row of a constant array"""
    dims = list(parent.shape[1:]) + list(base_dims)
    s = Sym("base[%r] with rows of %d" % (parent, row_of(base_dims)), parent.top, row_of(dims), lambda n: parent.fn(n) * row_of(base_dims), dims)
    base = Op([0.0] * (3 * row_of(base_dims)), shape=[3] + list(base_dims))
    mem = members_of(S.p, cls, [base, parent], arr(dims))
    mem["predecessors_"] = [base, parent]
    s.info = S.info(cls, mem, s)
    return s


def bounds_ok(i, s, sizes):
    """None, or (kind, size) of a size outside of the description"""
    for n in sizes:
        v = s.fn(n)
        if i["multiplier"] == 0 and i["offset"] != v:
            return "exactly %d" % i["offset"], n, v
        if i["min"].has and v < i["min"]:
            return "at least %d" % i["min"], n, v
        if i["max"].has and v > i["max"]:
            return "at most %d" % i["max"], n, v
    return None


def symbols(S, classes, note):
    """symbols over each root, one and two steps deep"""
    basic = [c for c in classes if short(c) == "BasicIndexingNode"]
    adv = [c for c in classes if short(c) == "AdvancedIndexingNode"]
    binary = [c for c in classes if short(c).startswith("BinaryOpNode<")][:1]

    def make(cls, f):
        try:
            x = f()
            x.cls = cls
            return x
        except FAILS as u:
            note(cls, u)

    for lo, hi in ROOTS:
        r = Root(lo, hi)
        first = []
        for c in basic:
            first += [make(c, lambda: slices_of(S, c, r, x, [])) for x in SLICES]
        for c in adv:
            first += [make(c, lambda: picks_of(S, c, r, d)) for d in ([], [1], [2], [3], [2, 2], [0])]
        first = [x for x in first if x is not None]
        second = []
        for q in first:
            d = q.shape[1:]
            for c in basic:
                if short(q.cls) == "AdvancedIndexingNode":
                    for x in SLICES[:14:2] + SLICES[13::3]:
                        for k in ([d] if not d else [d, [], [1]] if len(d) == 1 else [d, d[1:]]):
                            if row_of(d):
                                second.append(make(c, lambda: slices_of(S, c, q, x, k)))
                elif row_of(d):
                    second += [make(c, lambda: slices_of(S, c, q, x, d)) for x in SLICES[1:12:3] + SLICES[12::4]]
            for c in adv:
                if len(d) <= 1:
                    second += [make(c, lambda: picks_of(S, c, q, e)) for e in ([], [2])]
        third = []
        for q in second[::17]:
            if q is not None and row_of(q.shape[1:]):
                for c in basic:
                    third += [make(c, lambda: slices_of(S, c, q, x, q.shape[1:])) for x in (SLICES[1], SLICES[4], SLICES[12])]
                for c in adv:
                    if len(q.shape) <= 2:
                        third.append(make(c, lambda: picks_of(S, c, q, [2])))
        yield r, [x for x in first + second + third if x is not None]


def rule_sizes(ctx):
    R, E, B = "size-bounds", "equal-sizes", "own-size"
    ctx.rule(R, "for slices and advanced indices over arrays of every small range of sizes, up to three deep: the fixed size or the bounds that the formulas of sizeinfo() and of its "
                "substitution (at depths 1, 2 and 100) give include the number of elements for each size of the array", minimum=1)
    ctx.rule(E, "two such symbols that the comparison of sizes (raw or substituted) judges equal have the same number of elements for each size of the array", minimum=1)
    ctx.rule(B, "the size that any other symbol reports is its fixed number of elements, the declared limits of the decision, or that of the operand it follows", minimum=5)
    p = program()
    S = Sizes(p)
    subs = S.F.f.get("substitute")
    failed = {}
    seen = {}

    def note(cls, u):
        failed.setdefault(cls, []).append(u)

    bad = {}
    unclear = []
    eqbad = None
    nsym = neq = 0
    for r, syms in symbols(S, [c for c in S.m], note):
        groups = {}
        for s in syms:
            nsym += 1
            seen[s.cls] = seen.get(s.cls, 0) + 1
            full = None
            for depth in (1, 2, 100):
                try:
                    i = S.F.substitute(s.info, depth)
                except FAILS as u:
                    note(s.cls, u)
                    continue
                w = bounds_ok(i, s, r.sizes_)
                if w and s.cls not in bad:
                    bad[s.cls] = (s, depth, w)
                if i["min"].has and i["max"].has and i["min"] > i["max"] and s.cls not in bad:
                    bad[s.cls] = (s, depth, ("%d to %d" % (i["min"], i["max"]), r.sizes_[0], s.fn(r.sizes_[0])))
                full = i
            if s.info["array_ptr"] == 0 or s.info["multiplier"] == 0:
                w = bounds_ok(s.info, s, r.sizes_)
                if w and s.cls not in bad:
                    bad[s.cls] = (s, 0, w)
            groups.setdefault(tuple(s.fn(n) for n in r.sizes_), []).append((s, full))
        # one representative description per distinct behaviour and description
        reps = {}
        for g, l in groups.items():
            for s, full in l:
                reps.setdefault((g, S.F.key(s.info), full and S.F.key(full)), (g, s, full))
        reps = list(reps.values())
        try:
            for x, y in itertools.combinations(reps, 2):
                if x[0] == y[0]:
                    continue
                for a, b in ((x[1].info, y[1].info), (x[2], y[2])):
                    if a is None or b is None:
                        continue
                    if a["array_ptr"] != b["array_ptr"] or a["multiplier"] != b["multiplier"]:
                        # the comparison is still asked when one of them is fixed
                        if a["multiplier"] != 0 and b["multiplier"] != 0 and neq % 13:
                            neq += 1
                            continue
                    neq += 1
                    if S.F.equal(a, b) and eqbad is None:
                        eqbad = (x[1], y[1], next(n for n, u, v in zip(r.sizes_, x[0], y[0]) if u != v), S.F.f["operator=="])
                if x[2] is not None and y[2] is not None and (neq % 11 == 0 or x[2]["array_ptr"] == y[2]["array_ptr"] and x[2]["multiplier"] == y[2]["multiplier"]) and eqbad is None:
                    neq += 1
                    if S.F.shape_equal(x[1], y[1]):
                        eqbad = (x[1], y[1], next(n for n, u, v in zip(r.sizes_, x[0], y[0]) if u != v), S.F.same)
        except FAILS as u:
            unclear.append(u)
    ctx.count("symbols", nsym)
    ctx.count("comparisons", neq)
    for cls, n in seen.items():
        if cls in bad:
            s, depth, (what, k, v) = bad[cls]
            at = where(S.m[cls][0]) if depth == 0 or subs is None else where(subs)
            ctx.bad(R, short(cls), where(S.m[cls][0]), "%s reports %s elements for %r (substituted %d deep, %s), but it has %d when the array has %d"
                    % (short(cls), what, s, depth, at, v, k))
        elif cls in failed:
            ctx.undecided(R, "%s: %d of %d not understood (%s)" % (short(cls), len(failed[cls]), n, str(failed[cls][0])[:100]))
        else:
            ctx.ok(R, "%s: %d symbols" % (short(cls), n))
    for cls in failed:
        if cls not in seen:
            ctx.undecided(R, "%s: %s" % (short(cls), str(failed[cls][0])[:100]))
    if eqbad:
        ctx.bad(E, "comparison", where(eqbad[3]), "the sizes of %r and %r are judged equal, but they differ when the array has %d elements (%d, %d)" % (eqbad[0], eqbad[1], eqbad[2], eqbad[0].fn(eqbad[2]), eqbad[1].fn(eqbad[2])))
    elif unclear:
        ctx.undecided(E, str(unclear[0])[:150])
    elif neq:
        ctx.ok(E, "%d comparisons" % neq)
    own_sizes(ctx, S, B)


FOLLOW = ("BinaryOpNode", "UnaryOpNode", "NaryOpNode", "WhereNode")


def own_sizes(ctx, S, R):
    for cls in S.m:
        n = short(cls)
        k = n.split("<")[0]
        if k in ("BasicIndexingNode", "AdvancedIndexingNode"):
            continue
        names = {f["n"] for _, f in S.p.fields(cls)}
        cases = []      # (members, self, sizes)
        if {"min_size_", "max_size_"} <= names:
            for a, b in ((0, 3), (1, 4), (2, 2), (0, 0)):
                m = members_of(S.p, cls, [], {"min_size_": a, "max_size_": b, "max_value_": b, **arr([], -1 if a != b else a)})
                cases.append((m, list(range(a, b + 1)), None))
        elif "primary_set_size_" in names and "list_index_" in names:
            for b in (0, 1, 4):
                for c in (1, 3):    # one of c lists that share b elements
                    whole = {"primary_set_size_": b, "num_disjoint_lists_": c}
                    cases.append((members_of(S.p, cls, [], {"primary_set_size_": b, "list_index_": 0, "disjoint_list_node_ptr": whole, **arr([])}), list(range(b + 1)), None))
        else:
            for d, sz in (([], 1), ([], 0), ([], 7), ([3], 2), ([2, 2], 1)) if "size_" in names else (([], 1),):
                m = members_of(S.p, cls, [Op([0.0] * (sz * row_of(d)), shape=[sz] + d)] * 2, arr(d, sz))
                cases.append((m, [sz * row_of(d)], None))
            if k in FOLLOW:
                for lo, hi in ROOTS[:4]:
                    r = Root(lo, hi)
                    one = Op([1.0], shape=[])
                    for ops in ([[r]] if k == "UnaryOpNode" else [[r, one], [one, r]] if k == "BinaryOpNode" else [[r, r]] if k == "NaryOpNode" else [[one, r, r]]):
                        cases.append((members_of(S.p, cls, ops, arr([])), r.sizes_, r))
        why = None
        bad = None
        for m, sizes, r in cases:
            s = Sym(n, r, 1, lambda x: x)
            try:
                i = S.info(cls, m, s)
                if i["array_ptr"] is s and i["multiplier"] == 1 and i["offset"] == 0 or i["multiplier"] == 0:
                    j = i
                elif r is not None and i["array_ptr"] is r:
                    j = S.F.substitute(i, 100)
                elif isinstance(i["array_ptr"], Op) and not isinstance(i["array_ptr"], Sym) and any(i["array_ptr"] is o for o in m["operands_"]):
                    # said to follow an operand whose size never changes
                    k2 = i["multiplier"] * len(i["array_ptr"].cur) + i["offset"]
                    j = dict(i, multiplier=Fraction(0), offset=int(k2), min=IOpt(None), max=IOpt(None))
                elif r is None:
                    raise Unknown("size of another array")
                else:
                    raise Unknown("relation to another array")
                w = bounds_ok(j, s, sizes)
                if w and bad is None:
                    bad = (m, w)
            except FAILS as u:
                why = u
        if bad:
            what, x, v = bad[1]
            ctx.bad(R, n, where(S.m[cls][0]), "%s reports a size of %s, but it has %d elements in some states" % (n, what, v))
        elif why is not None:
            ctx.undecided(R, "%s (%s)" % (n, str(why)[:100]))
        else:
            ctx.ok(R, "%s: %d cases" % (n, len(cases)))


# ------------------------------------------------------------------ slices
def rule_slices(ctx):
    R = "slices"
    ctx.rule(R, "for every small start, stop and step (and the open ends) and every small length, fitting a slice to the length gives the positions that the slice of a Python "
                "sequence of that length has, and the size of a fitted slice is the number of its positions", minimum=2)
    p = program()
    F = Formulas(p)
    cls = NS + "Slice"
    ms = {}
    for f in p.methods_of(cls):
        if not f.get("isctor") and f.get("body") is not None:
            ms[(f["n"], len(f["params"]))] = (f, paths_of(p, f, cls) or [])
    ends = [-2 ** 63, -7, -5, -4, -2, -1, 0, 1, 2, 3, 5, 8, MAX]
    steps = [1, 2, 3, 5, -1, -2, -4]

    def run(n, members, *args):
        f, pas = ms[(n, len(args))]
        return F.result(F.play(members, {q["n"]: v for q, v in zip(f["params"], args)}), pas)

    for n, args in (("fit", 1), ("fit_at", 1), ("size", 0)):
        if (n, args) not in ms:
            continue
        f = ms[(n, args)][0]
        bad = why = None
        done = 0
        for step in steps:
            for a in ends:
                for b in ends:
                    m = {"start": a, "stop": b, "step": step}
                    for size in (0, 1, 2, 4, 5, 6):
                        want = range(size)[slice(a if abs(a) < 2 ** 62 else None, b if abs(b) < 2 ** 62 else None, step)]
                        if step < 0 and (a < -100 or b > 100) or step > 0 and (a > 100 or b < -100):
                            want = range(size)[a:b:step]
                        try:
                            if n != "size":
                                g = run("fit", m, size)
                                g = [int(num(g[k])) for k in ("start", "stop", "step")]
                                got = range(*g)
                                ok = got == want    # as sequences
                            else:
                                s, e, st = slice(a, b, step).indices(size)
                                got = run(n, {"start": s, "stop": e, "step": st})
                                ok = got == len(want)
                            done += 1
                            if not ok and bad is None:
                                bad = (m, size, got, want)
                        except FAILS as u:
                            why = u
        ctx.count("slices", done)
        if bad:
            m, size, got, want = bad
            ctx.bad(R, n, where(f), "Slice::%s of [%d:%d:%d] with %d elements is %s, expected %s" % (n, m["start"], m["stop"], m["step"], size, got, len(want) if n == "size" else want))
        elif why is not None or not done:
            ctx.undecided(R, "%s: %s" % (n, str(why)[:120]))
        else:
            ctx.ok(R, "%s: %d slices" % (n, done))


def rule_fractions(ctx):
    R = "fractions"
    ctx.rule(R, "the fractions that sizes are multiplied by: constructing, multiplying and dividing, on a grid of numerators and denominators, gives the exact ratio in lowest terms", minimum=1)
    p = program()
    F = Formulas(p)
    cls = NS + "fraction"
    grid = [(n, d) for n in (-6, -1, 0, 1, 2, 3, 4, 9) for d in (1, 2, 3, 4, 6) if math.gcd(n, d) == 1]
    for f in p.methods_of(cls):
        n = f["n"]
        ps = f["params"]
        kinds = ["fraction" if "fraction" in q["t"] else "number" for q in ps]
        if f.get("body") is None or not (f.get("isctor") and kinds in (["number"], ["number"] * 2) or n in ("operator*=", "operator/=", "operator+=", "operator-=") and len(ps) == 1):
            continue
        tag = "%s(%s)" % (n, ", ".join(kinds))
        pas = paths_of(p, f, cls) or []
        bad = why = None
        done = 0
        args = [[v for v in ((-3, -2, -1, 1, 2, 4, 6) if n == "operator/=" or i == 1 and f.get("isctor") else (-4, -1, 0, 1, 2, 3, 6))] if k == "number" else [Fraction(*g) for g in grid]
                for i, k in enumerate(kinds)]
        for own in [(0, 1)] if f.get("isctor") else grid:
            for a in itertools.product(*args):
                if n == "operator/=" and a[0] == 0:
                    continue
                x = Fraction(*own)
                try:
                    y = Fraction(*a) if f.get("isctor") else x * a[0] if n == "operator*=" else x / a[0] if n == "operator/=" else x + a[0] if n == "operator+=" else x - a[0]
                    P = F.play({"numerator_": own[0], "denominator_": own[1]}, {q["n"]: v for q, v in zip(ps, a)})
                    P.levels.append(Level(0, P.snap()))
                    hits = []
                    for q in pas:
                        h = [bool(P.ev(c)) for c in q.conds]
                        if all(h):
                            hits.append(q)
                    if len(hits) != 1 or hits[0].end[0] == "throw":
                        raise Unknown("branch")
                    got = {}
                    for m, v in (("numerator_", own[0]), ("denominator_", own[1])):
                        for e in hits[0].events:
                            if e.k in ("w", "init") and e.loc == ("mem", THIS, m):
                                v = int(P.n(e.val))
                            elif e.k not in ("w", "init", "call"):
                                raise Unknown(e.k)
                        got[m] = v
                    done += 1
                    g = (got["numerator_"], got["denominator_"])
                    if g != (y.numerator, y.denominator) and bad is None:
                        bad = (own, a, g, y)
                except FAILS as u:
                    why = u
        if bad:
            own, a, g, y = bad
            ctx.bad(R, tag, where(f), "fraction::%s with %s%s is %d/%d, expected %s" % (n, ", ".join(str(x) for x in a), "" if f.get("isctor") else " on %d/%d" % own, g[0], g[1], y))
        elif why is not None or not done:
            ctx.undecided(R, "%s: %s" % (tag, str(why)[:120]))
        else:
            ctx.ok(R, "%s: %d values" % (tag, done))

"""Reported value ranges: min(), max() and integral() of every node, read as interval transfer functions.

The terms the three methods return are evaluated over a small lattice of operand ranges; the meaning of the node's
operation (the same table as for P04) is applied to values in these ranges. Each result has to lie within the range."""
import copy
import itertools
import math

from .facts import program
from .txn import short, concrete_nodes, node_methods, paths_of
from .finite import Unknown, num
from .transfer import Play, Op, Opt
from .incr import meaning, functor, members_of, where, fold, targ, isnum, reduce_spec, partial_spec, concat_spec, cstrides

FAILS = (Unknown, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, IndexError)
WHOLE = [(0, 0), (0, 1), (1, 1), (0, 3), (2, 3), (-2, -1), (-3, 2), (-1, 4), (-3, 0), (-1, 1)]
PARTS = [(0.5, 1.5), (-0.5, 0.25), (-2.5, -0.5), (0.0, 1.0), (-1.5, 2.0)]
RANGES = [(float(a), float(b), True) for a, b in WHOLE] + [(a, b, False) for a, b in PARTS]


class ROp(Op):
    """an operand known by the range of its elements"""

    def __init__(self, rng, size=1, dynamic=False, shape=None, sizes=None):
        super().__init__([rng[0]] * max(size, 0), dynamic=dynamic, shape=shape)
        self.rng = rng
        self.range = {"min": rng[0], "max": rng[1], "integral": rng[2]}
        lo, hi = sizes if sizes else (None, None)
        self.lohi = (lo, hi)
        self.sizes = {"array_ptr": self if dynamic else None, "multiplier": 1.0 if dynamic else 0.0, "offset": 0 if dynamic else size,
                      "min": Opt(lo if dynamic else size), "max": Opt(hi if dynamic else size)}

    def __repr__(self):
        a, b, i = self.rng
        return "%s in [%g, %g]%s" % ("whole numbers" if i else "numbers", a, b,
                                     ", %s to %s of them" % (self.lohi[0] or 0, "any number" if self.lohi[1] is None else self.lohi[1]) if self.dynamic else "")

    def values(self, few=False):
        a, b, i = self.rng
        if i:
            v = [float(x) for x in range(int(a), int(b) + 1)]
            if few and len(v) > 3:
                v = sorted({a, b, 0.0 if a < 0 < b else a + 1})
            return v
        v = {a, b} | ({0.0} if a < 0 < b else set())
        if not few:
            v |= {(a + b) / 2, a + (b - a) / 4} | {float(x) for x in range(math.ceil(a), math.floor(b) + 1)}
        return sorted(v)


def with_values(op, vals):
    o = Op(vals, dynamic=op.dynamic, shape=op.shape if not op.dynamic else None)
    return o


def cached(q):
    """the path without the stores of a value the node keeps for later calls"""
    r = copy.copy(q)
    r.events = [e for e in q.events if not (e.loc is not None and e.loc[0] == "mem" and e.loc[1] == ("this",))]
    return r


class Reader:
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.m = {}
        for (n, pt), f in node_methods(p, cls).items():
            if n in ("min", "max", "integral") and not pt:
                self.m[n] = (f, [cached(q) for q in paths_of(p, f, cls)])

    def value(self, n, members):
        if n not in self.m or not self.m[n][1]:
            raise Unknown(n)
        P = Play(members, functors=lambda t: functor(self.p, t))
        q = P.run([q for q in self.m[n][1]])
        if q is None or q.end[0] != "ret":
            raise Unknown("no value of " + n)
        v = P.ev(q.end[1])
        return bool(v) if n == "integral" else float(num(v))


def elementwise(F, n, keep=None, ranges=RANGES):
    for rs in itertools.product(ranges, repeat=n):
        ops = [ROp(r) for r in rs]
        if keep and not keep(ops):
            continue
        yield ops, {}, (lambda ops=ops: ([float(F(*v))] for v in itertools.product(*[o.values() for o in ops])))


def nary(F):
    few = RANGES[:1] + RANGES[3:8] + RANGES[11:13]
    for n in (1, 2, 3):
        for rs in itertools.product(few, repeat=n):
            ops = [ROp(r) for r in rs]
            yield ops, {}, (lambda ops=ops: ([fold(F, v)] for v in itertools.product(*[o.values(len(ops) > 2) for o in ops])))


def reduction(F, own, logical):
    spec = reduce_spec(F, logical)
    inits = [None, 0.0, 2.0, -3.0, 0.5]
    for r in RANGES:
        for dyn, sizes in [(False, (1, 1)), (False, (2, 2)), (False, (3, 3)), (False, (4, 4)), (True, (0, 2)), (True, (1, 3)), (True, (2, 2)), (True, (0, None)), (True, (2, None)), (True, (None, None))] + \
                ([] if own else [(False, (0, 0))]):
            for init in inits:
                if own and init is None and dyn and not sizes[0]:
                    continue
                o = ROp(r, sizes[0] or 0, dynamic=dyn, sizes=sizes)
                extra = {"init": Opt(init)}

                def out(o=o, sizes=sizes, extra=extra):
                    x = dict(extra)
                    if not x["init"].has and not own:
                        x["init"] = Opt(1.0 if F(2.0, 3.0) == 6.0 or F(1.0, 1.0) == 1.0 and F(0.0, 1.0) == 0.0 else 0.0)
                    for n in range(sizes[0] or 0, (4 if sizes[1] is None else sizes[1]) + 1):
                        for v in itertools.combinations_with_replacement(o.values(n > 2), n):
                            yield spec([with_values(o, list(v))], x)
                    if sizes[1] is None:
                        for v in (o.rng[0], o.rng[1]):
                            yield spec([with_values(o, [v] * 700)], x)
                yield [o], extra, out


def partial(F):
    for r in RANGES:
        for shape in ([2, 3], [3, 2], [1, 4], [3]):
            for axis in range(len(shape)):
                for init in (None, 2.0, -3.0, 0.5):
                    n = math.prod(shape)
                    o = ROp(r, n, shape=shape)
                    rest = shape[:axis] + shape[axis + 1:]
                    extra = {"init": Opt(init), "axes_": [axis], "parent_strides_c_": cstrides(shape), "ndim_": len(rest), "shape_": rest, "strides_": cstrides(rest), "size_": math.prod(rest)}

                    def out(o=o, extra=extra, k=shape[axis], init=init):
                        for v in itertools.combinations_with_replacement(o.values(True), k):
                            yield [sum(v) + (init or 0.0)]
                    yield [o], extra, out


def picked(n, which):
    """elements are copies of elements of some operands"""
    few = RANGES[:1] + RANGES[3:6] + RANGES[10:13] + [(5.0, 6.0, True)]
    for rs in itertools.product(few, repeat=n):
        ops = [ROp(r) for r in rs]
        yield ops, {}, (lambda ops=ops: ([v] for i in which for v in ops[i].values()))


def kinds(p):
    for cls in concrete_nodes(p):
        n = short(cls)
        k = n.split("<")[0]
        if k in ("UnaryOpNode", "BinaryOpNode", "NaryOpNode", "ReduceNode"):
            F = meaning(p, targ(cls))
            if F is None:
                yield cls, None
            elif k == "UnaryOpNode":
                yield cls, elementwise(F, 1, (lambda o: o[0].rng[0] >= 0) if "root" in n else None)
            elif k == "BinaryOpNode":
                yield cls, elementwise(F, 2, (lambda o: o[1].rng[0] > 0 or o[1].rng[1] < 0) if "divides" in n else None)
            elif k == "NaryOpNode":
                yield cls, nary(F)
            else:
                yield cls, reduction(F, "max" in n or "min" in n, "logical" in n)
        elif k == "PartialReduceNode":
            yield cls, partial(None)
        elif k == "WhereNode":
            yield cls, picked(3, (1, 2))
        elif k in ("BasicIndexingNode", "ReshapeNode"):
            yield cls, picked(1, (0,))
        elif k in ("AdvancedIndexingNode", "PermutationNode"):
            yield cls, picked(2, (0,))
        elif k == "ConcatenateNode":
            yield cls, picked(2, (0, 1))


BUFFERS = [[], [4.0], [-1.5], [1.0, 2.0], [3.0, 0.0, -2.0], [0.5, 7.0, -0.25], [-4.0, -3.5], [2.0, 2.0, 9.0, 2.0]]


def given(extra, vals):
    return [], extra, lambda: ([float(v)] for v in vals)


def sources(p):
    """nodes without operands: decisions, by the domain their members describe; constants, by their values"""
    for cls in concrete_nodes(p):
        f = {x["n"] for _, x in p.fields(cls)}
        n = short(cls)
        if {"lower_bound_", "upper_bound_"} <= f:
            cases = [given({"lower_bound_": float(a), "upper_bound_": float(b)}, range(a, b + 1)) for a, b in ((0, 1), (-2, 3), (0, 5), (-4, -1), (7, 7))]
        elif "max_value_" in f:
            cases = [given({"max_value_": m, "min_size_": a, "max_size_": b}, range(m)) for m in (1, 2, 5) for a in range(m + 1) for b in range(a, m + 1)]
        elif n == "DisjointBitSetNode":
            cases = [given({"primary_set_size_": m, "primary_set_size": m, "set_index_": i}, (0, 1)) for m in (1, 4) for i in (0, 2)]
        elif n == "DisjointListNode":
            cases = [given({"primary_set_size_": m, "primary_set_size": m, "list_index_": i}, range(m)) for m in (1, 4) for i in (0, 2)]
        elif n == "QuadraticModelNode":
            cases = [given({}, (-1e300, -0.5, 0.25, 1e300))]
        elif n == "ConstantNode":
            cases = [given({"buffer_ptr_": b, "size_": len(b), "shape_": [len(b)], "ndim_": 1, "buffer_stats_": Opt(None)}, b) for b in BUFFERS]
        elif n == "SizeNode":
            cases = []
            for dyn, (lo, hi) in [(False, (0, 0)), (False, (1, 1)), (False, (4, 4)), (True, (0, 2)), (True, (1, 3)), (True, (2, None)), (True, (None, None)), (True, (None, 5))]:
                o = ROp((0.0, 1.0, True), lo or 0, dynamic=dyn, sizes=(lo, hi))
                cases.append(([o], {}, lambda lo=lo, hi=hi: ([float(v)] for v in list(range(lo or 0, (lo or 0) + 6 if hi is None else hi + 1)) + ([1e9] if hi is None else []))))
        else:
            continue
        yield cls, cases


def rule_ranges(ctx):
    R = "reported-range"
    ctx.rule(R, "for every node kind and every small range of its operands (whole or not; fixed and dynamic sizes; initial values): each result the operation has on values in these "
                "ranges lies between the terms returned by min() and max(), and is a whole number if the term returned by integral() is true", minimum=8)
    p = program()
    for cls, cases in itertools.chain(kinds(p), sources(p)):
        name = short(cls)
        rd = Reader(p, cls)
        if cases is None or len(rd.m) < 3:
            ctx.undecided(R, name)
            continue
        ok = und = 0
        last = bad = None
        for ops, extra, outs in cases:
            mem = members_of(p, cls, ops, extra)
            got = {}
            for m in ("min", "max", "integral"):
                try:
                    got[m] = rd.value(m, mem)
                except FAILS as u:
                    last = u
            if len(got) < 3:
                und += 1
            else:
                ok += 1
            try:
                for vals in outs():
                    for v in vals:
                        if v != v or abs(v) == math.inf:
                            continue
                        e = 1e-9 * max(1.0, abs(v))
                        for m, wrong in (("min", "min" in got and not got["min"] <= v + e), ("max", "max" in got and not got["max"] >= v - e),
                                         ("integral", got.get("integral") and v != math.floor(v))):
                            if wrong and bad is None:
                                bad = (m, ops, extra, got[m], v)
            except FAILS as u:
                und += 1
                last = u
        ctx.count("operand ranges", ok + und)
        if bad:
            m, ops, extra, g, v = bad
            i = extra.get("init")
            ctx.bad(R, "%s::%s" % (name, m), where(rd.m[m][0]), "%s::%s() is %s for operands %s%s, but %g is a value it can take"
                    % (name, m, ("true" if m == "integral" else "%g" % g), ops, " and initial value %g" % i if i is not None and i.has else "", v))
        elif und:
            ctx.undecided(R, "%s: %d of %d operand ranges not understood (%s)" % (name, und, ok + und, str(last)[:100]))
        else:
            ctx.ok(R, "%s: %d operand ranges" % (name, ok))

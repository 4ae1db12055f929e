"""P09: operands for which a symbol would have no value are refused by its constructor.

For each constructor concerned the path conditions are evaluated for operands that must be refused (a range of
values, a size, fractional values); a path that completes although all its conditions on these operands hold is a violation."""
from .engine import flat, show
from .facts import program
from .graphp import where
from .txn import NS, paths_of, short


def subs(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subs(x)


class Free(Exception):
    """a term this scenario says nothing about"""


def value(t, S):
    if t[0] == "lit":
        return t[1]
    if t[0] == "lin":
        return t[1] + sum(k * num(value(x, S)) for x, k in t[2])
    if t[0] in ("toint", "tobool") and isinstance(t[-1], tuple):
        return value(t[-1], S)
    v = S(t)
    if v is not None:
        return v
    if t[0] == "app" and t[1] in ("/", "*") and len(t) > 3 and len(t[3]) == 2:
        a, b = (num(value(x, S)) for x in t[3])
        if t[1] == "*":
            return a * b
        if b and a % b == 0:
            return a // b
    raise Free()


def num(v):
    if isinstance(v, (int, float)):
        return v
    raise Free()


def truth(c, S):
    """True, False, or None when the scenario does not decide it"""
    try:
        if c[0] == "not":
            v = truth(c[1], S)
            return None if v is None else not v
        if c[0] == "cmp":
            v = num(value(c[2], S))
            return {"le": v <= 0, "lt": v < 0, "eq": v == 0, "ne": v != 0, "ge": v >= 0, "gt": v > 0}.get(c[1])
        if c[0] in ("and", "or"):
            xs = c[1] if c[1] and isinstance(c[1][0], tuple) else c[1:]
            vs = [truth(x, S) for x in xs]
            if c[0] == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        return bool(value(c, S))
    except Free:
        return None


def mentions_param(t, names):
    return any(s[0] == "param" and s[1] in names for s in subs(t))


def about(operand, **known):
    """a scenario: what queries of the operand (a test of the receiver) answer"""
    def S(t):
        if t[0] == "app" and len(t) > 2 and t[1] in known and operand(t[2]):
            return known[t[1]]
        return None
    return S


def first(t, name, shape):
    """what queries of the indexed array itself answer"""
    if t[0] == "app" and t[1] in ("size", "ndim", "dynamic") and t[2] in (("deref", ("param", name)), ("param", name)):
        return {"size": max(-1, shape[0] * shape[1]), "ndim": 2, "dynamic": shape[0] < 0}[t[1]]
    e = t[1][1] if t[0] == "load" and t[1][0] == "mem" and len(t[1]) == 2 else t[1] if t[0] in ("deref", "load") else None
    if e and e[0] == "app" and e[1] in ("max_element", "min_element") and any(
            s[0] == "app" and s[1] == "shape" and s[2] in (("deref", ("param", name)), ("param", name)) for s in subs(e)):
        return (max if e[1] == "max_element" else min)(shape)
    return None


def decided(S, c):
    """does the condition speak about what the scenario fixes?"""
    weak = getattr(S, "weak", ())
    return any(s not in weak and s[0] != "lit" and S(s) is not None for s in subs(c))


def opaque(c, names):
    """a condition whose connection with the operands is not plain: a value that is not known or a text, or the answer of a
    function that is not followed and is given the operand itself"""
    if c[0] == "not":
        return opaque(c[1], names)
    if c[0] in ("lit", "str", "unk", "unknown", "havoc", "sym", "phi", "ite"):
        return True
    for s in subs(c):
        if s[0] in ("unk", "unknown", "havoc", "sym", "phi", "ite"):
            return True
        if s[0] == "app" and "cast" not in str(s[1]) and s[1] != "list" and len(s) > 3 and any(
                x in (("param", n), ("deref", ("param", n)), ("rng", ("param", n))) for x in s[3] for n in names):
            return True
    return False


def completed(ps):
    """(conditions, events) of each way through that does not refuse, loop passes included separately"""
    for q in ps:
        if q.end[0] != "throw":
            yield q


def elsewhere(f, r, q, names):
    """a part of this way through that is not evaluated here and could refuse the operands: a loop with its own exits,
    a call whose effect is not known"""
    for e in [e for e in r.events] + ([] if r is q else [e for e in q.events if e.k != "loop"]):
        if "/array." in str(e.line) or "/graph." in str(e.line):
            continue  # building the base classes
        if e.k == "loop" and any(x.end[0] in ("throw", "ret") for x in e.x.get("paths") or []):
            return "a loop at line %s may refuse them" % e.line
        if e.k in ("lost", "obscure"):
            return "line %s is not followed" % e.line
        if e.k == "call" and (e.x.get("f") or {}).get("repo") and not (e.x["f"].get("const") or e.x.get("name") == "add_predecessor") and mentions_param(
                (tuple(e.x.get("args") or ()), e.x.get("obj")), names):
            return "the call of %s at line %s is not followed" % (e.x.get("name"), e.line)
    return None


def otherwise(q, r, S, alike, late):
    """a pass of another loop, or a condition outside of the loops, that could refuse the operand this pass accepts"""
    if late:
        return "what is refused after the loop is not known"
    if any(alike(s) for c in q.conds for s in subs(c)):
        return "there are conditions on it outside of the loop"
    for e in flat(q.events):
        if e.k == "loop" and not any(x is r for x in e.x.get("paths") or []):
            for x in e.x.get("paths") or []:
                if x.end[0] == "throw" and any(alike(s) for c in x.conds for s in subs(c)) and not any(truth(c, S) is False for c in x.conds):
                    return "another loop at line %s may refuse it" % e.line
    return None


def judge(ctx, R, f, name, ps, scenarios, loops=False):
    names = {x["n"] for x in f["params"]}
    late = loops and any(q.end[0] == "throw" and any(e.k == "loop" for e in flat(q.events)) and q.conds and opaque(q.conds[-1], ()) for q in ps)
    for what, S, alike in scenarios:
        worst = und = None
        hit = 0
        for q in completed(ps):
            ways = [(list(q.conds), q)]
            if loops:
                ways = [(list(r.conds), r) for e in flat(q.events) if e.k == "loop" for r in e.x.get("paths") or [] if r.end[0] not in ("throw",)]
            for conds, r in ways:
                # passes of a loop that have nothing to do with the operand are not of interest
                rel = [c for c in conds if any(alike(s) for s in subs(c))]
                if loops and not rel:
                    continue
                vs = [(c, truth(c, S)) for c in conds]
                if any(v is False for _, v in vs):
                    hit += 1
                    continue
                open_ = [c for c, v in vs if v is None and (decided(S, c) or any(alike(s) for s in subs(c)) or not loops and opaque(c, names))]
                if open_:
                    und = und or "; ".join(show(c) for c in open_)[:200]
                    continue
                other = elsewhere(f, r, q, names) if not loops else otherwise(q, r, S, alike, late)
                if other:
                    und = und or other
                    continue
                worst = worst or ("; ".join(show(c) for c in rel)[:300] or "without a condition on it")
        if und:
            ctx.undecided(R, "%s: %s (%s)" % (name, what, und))
        elif worst:
            ctx.bad(R, "%s: %s" % (name, what), where(f), "%s accepts %s (%s)" % (name, what, worst))
        elif hit:
            ctx.ok(R, "%s refuses %s" % (name, what))


def rule_defined(ctx):
    R = "undefined-refused"
    ctx.rule(R, "a constructor completes only for operands with which the symbol has a value in every state", minimum=4)
    p = program()
    seen = set()
    for g in list(p.byid.values()):
        f = g[0]
        cls = f.get("cls")
        if f.get("body") is None or not cls or not f.get("repo"):
            continue
        base = cls.replace(NS, "").split("<")[0]
        if f["n"] not in (base, base.split("::")[-1]):
            continue
        ns = [x["n"] for x in f["params"]]
        key = (cls, tuple(x["t"] for x in f["params"]))
        if key in seen:
            continue
        jobs = None
        arr = [x["n"] for x in f["params"] if "ArrayNode *" in x["t"]]
        if base == "BinaryOpNode" and "divides" in cls and len(arr) == 2:
            def op(t, n=arr[1]):
                # the second operand itself, also as an element of a list of the operands
                if t == ("deref", ("param", n)) or t == ("param", n):
                    return True
                return any(s[0] == "at" and s[-1] == ("lit", 1) for s in subs(t)) and mentions_param(t, {n})

            def alike(s, n=arr[1]):
                return s[0] == "app" and s[1] in ("min", "max", "minmax") and mentions_param(s, {n}) and op(s[2])
            jobs = [("a denominator between %s and %s" % (lo, hi), about(op, min=lo, max=hi), alike) for lo, hi in ((-1, 1), (0, 1), (-1, 0), (0, 0), (-7, 2))], False
        elif base == "UnaryOpNode" and "square_root" in cls and len(arr) == 1:
            def op(t, n=arr[0]):
                return t in (("deref", ("param", n)), ("param", n))

            def alike(s, op=op):
                return s[0] == "app" and s[1] in ("min", "max", "minmax") and op(s[2])
            jobs = [("a square root of values between %s and %s" % (lo, hi), about(op, min=lo, max=hi), alike) for lo, hi in ((-1, 1), (-3, -2), (-0.5, 4), (-1, 0))], False
        elif base == "PermutationNode" and len(arr) == 2:
            def op(t, n=arr[1]):
                return t in (("deref", ("param", n)), ("param", n))

            def alike(s, op=op):
                return s[0] == "app" and s[1] in ("min", "max", "minmax", "integral") and op(s[2])

            def alikesize(s, op=op):
                return s[0] == "app" and s[1] == "size" and op(s[2]) or s[0] == "size" and op(s[1])

            def scen(lo, hi, ig, n=arr[0], op=op, size=3):
                inner = about(op, min=lo, max=hi, integral=ig, size=size, ndim=1, dynamic=False)

                def S(t):
                    if t[0] == "load" and mentions_param(t, {n}) and t[1][0] == "idx" and any(s[0] == "app" and s[1] == "shape" for s in subs(t)):
                        return 3
                    if t[0] == "size" and op(t[1]):
                        return size
                    v = first(t, n, (3, 3))
                    return inner(t) if v is None else v
                return S
            jobs = [("orders between %s and %s of three" % (lo, hi), scen(lo, hi, True), alike) for lo, hi in ((-1, 2), (0, 3), (-2, 5))] + \
                [("orders with fractions", scen(0, 2, False), alike)] + \
                [("an order of %d for three" % n, scen(0, 1, True, size=n), alikesize) for n in (2, 4)], False
        elif base == "ReduceNode" and ("functional::max<" in cls or "functional::min<" in cls) and len(f["params"]) == 1 and len(arr) == 1:
            def op(t, n=arr[0]):
                return t in (("deref", ("param", n)), ("param", n)) or t[0] == "load" and mentions_param(t, {n})

            def alike(s, op=op):
                return s[0] == "app" and s[1] not in ("strides", "contiguous", "min", "max", "integral", "itemsize") and op(s[2]) or s[0] == "size" and any(
                    x[0] == "app" and x[1] == "shape" for x in subs(s))
            jobs = [("an array that may become empty, without a start value", about(op, dynamic=True, size=-1), alike),
                    ("an empty array, without a start value", about(op, dynamic=False, size=0), alike)], False
        elif base == "AdvancedIndexingNode::IndexParser_" or base == "AdvancedIndexingNode":
            def alike(s):
                return s[0] == "app" and s[1] in ("min", "max", "minmax", "integral") and any(x[0] == "app" and x[1] == "get" for x in subs(s[2]))

            def scen(lo, hi, ig, places, place=None):
                def S(t):
                    if t[0] == "app" and t[1] in ("min", "max", "integral") and alike(t):
                        return {"min": lo, "max": hi, "integral": ig}[t[1]]
                    if t[0] == "load" and t[1][0] == "idx" and not any(s[0] == "app" and s[1] == "get" for s in subs(t)):
                        if any(s[0] == "app" and s[1] == "shape" for s in subs(t[1][1])):
                            return places[0] if t[1][2] == ("lit", 0) else places[1]
                        if any(s[0] == "app" and s[1] == "strides" for s in subs(t[1][1])) and t[1][2] == ("lit", 0):
                            return 8
                    v = first(t, "array_ptr", places)
                    if v is not None:
                        return v
                    if t[0] == "fld" and t[2] == "min" and any(s[0] == "app" and s[1] == "sizeinfo" for s in subs(t[1])):
                        return 3
                    if t[0] == "app" and t[1] == "has_value" and any(s[0] == "app" and s[1] == "sizeinfo" for s in subs(t[2])):
                        return True
                    if place is not None and t in axes:
                        return place
                    return None
                S.weak = axes
                return S
            axes = {s[1][2] for q in paths_of(p, f, cls) or () for e in flat(q.events) if e.k == "loop" for r in e.x.get("paths") or []
                    for c in r.conds for s in subs(c)
                    if s[0] == "load" and s[1][0] == "idx" and s[1][2][0] not in ("lit", "lin") and any(x[0] == "app" and x[1] == "shape" for x in subs(s[1][1]))}
            jobs = [("indices between %s and %s of an axis of three" % (lo, hi), scen(lo, hi, True, (3, 3)), alike) for lo, hi in ((-1, 2), (0, 3), (1, 7))] + \
                [("indices between 0 and 3 of a second axis of three behind one of five", scen(0, 3, True, (5, 3), 1), alike),
                 ("indices between 0 and 3 of an array of at least three values", scen(0, 3, True, (-1, 3), 0), alike),
                 ("indices with fractions", scen(0, 2, False, (3, 3)), alike)], True
        if jobs is None:
            continue
        seen.add(key)
        ps = paths_of(p, f, cls)
        if ps is None:
            ctx.undecided(R, "%s: paths not known" % short(f["q"]))
            continue
        ctx.count("constructors")
        judge(ctx, R, f, short(cls), ps, jobs[0], jobs[1])

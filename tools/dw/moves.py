"""Moves of decisions keep the state in the declared domain (P11).

A conservation calculus over the extracted effects of every move. The content of a collection (of all disjoint
lists together, of each element's column over the disjoint sets) is a multiset; every write, append and pop
changes it by  + new value - old value,  with both values as terms over the content before the move. A loop
contributes the telescoped sum of its iterations: a carried value gives  + start - end, a shift by one gives
+ the element past the end - the first element. A move conserves the content when the sum is empty; what is
left of a sum, in terms of distinct places of the old content, is a lost and a duplicated element. No bound on
the number of elements is involved."""
from collections import Counter
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods, paths_of
from .graphp import where, lw
from .finite import *
from .domain import Spec, drawn, mem, witness, XS, BIG

DATA = ("data", ("this",))
NOT_MOVES = ("initialize_state", "propagate", "commit", "revert")


def dmem(n):
    return ("mem", DATA, n)


def root_of(loc):
    """the member of the state data a place belongs to"""
    t = loc
    while isinstance(t, tuple) and t and t[0] in ("idx", "at", "mem", "deref"):
        if t[0] == "mem" and t[1] == DATA:
            return t[2]
        t = t[1]
    return None


class Lost(Exception):
    pass


class Sum:
    def __init__(self, depth, seg=0, parent=None):
        self.depth = depth          # {member: number of subscripts of an element}
        self.delta = Counter()
        self.cols = {}              # element's column -> Counter (disjoint sets)
        self.cur = {}
        self.seg = seg
        self.affected = []          # (container, low, high) changed by loops
        self.alias = {}
        self.flags = []
        self.marks = []
        self.empty = False

    # -- places
    def element(self, loc):
        r = root_of(loc)
        if r not in self.depth:
            return False
        n = 0
        t = loc
        while t != dmem(r):
            if t[0] not in ("idx", "at"):
                return False
            n += 1
            t = t[1]
        return n == self.depth[r]

    def outside(self, loc):
        """the place was not changed by any loop so far"""
        for c, lo, hi in self.affected:
            if root_of(c) != root_of(loc):
                continue
            if canon(loc[1]) != canon(c):
                continue            # another list
            a, b = add(canon(loc[2]), lo, -1), add(canon(loc[2]), hi, -1)
            if is_num(a) and a[1] < 0 or is_num(b) and b[1] > 0:
                continue
            return False
        return True

    def initial(self, loc):
        loc = self.norm(loc)
        if not self.outside(loc):
            raise Unknown(loc)
        return ("was", loc)

    def norm(self, loc):
        return canon(loc)

    def now(self, loc):
        loc = self.norm(loc)
        if loc in self.cur:
            return self.cur[loc]
        return self.initial(loc)

    def val(self, t):
        if t in self.alias:
            return self.alias[t]
        if t[0] == "load" and self.element(t[1]):
            loc = self.norm(t[1])
            if not any(m < t[2] for m in self.marks):
                return ("was", loc)     # read before any loop; what was written before is forwarded by the engine
            return self.now(loc)
        if contains(t, lambda z: isinstance(z, tuple) and len(z) == 3 and z[0] == "load" and self.element(z[1])):
            raise Unknown(t)
        return ("val", canon(t))

    def change(self, loc, new, old):
        self.delta[new] += 1
        self.delta[old] -= 1
        if self.delta[new] == 0:
            del self.delta[new]
        if self.delta.get(old) == 0:
            del self.delta[old]
        col = self.column(loc)
        c = self.cols.setdefault(col, Counter())
        c[new] += 1
        c[old] -= 1
        for k in [k for k in c if c[k] == 0]:
            del c[k]

    def column(self, loc):
        if loc is None or root_of(loc) != "data":
            return None
        c, p = lin_parts(canon(loc[2]))
        prim = (canon(dmem("primary_set_size")), mem("primary_set_size_"))
        rest = {}
        for a, k in p.items():
            if a in prim or a[0] == "mul" and any(x in prim for x in a[1]):
                continue
            rest[a] = k
        return mk_lin(c, rest)

    def run(self, pa):
        for e in pa.events:
            self.event(e, pa)

    def event(self, e, pa):
        if e.k == "w" and e.loc is not None and self.element(e.loc):
            v, loc = self.val(e.val), self.norm(e.loc)
            if e.x.get("op") in ("+=", "-=", "*=", "/=", "++", "--"):
                raise Unknown(e)
            old = self.now(loc)
            self.change(loc, v, old)
            self.cur[loc] = v
        elif e.k in ("push", "cont", "algo") and e.loc is not None and root_of(e.loc) in self.depth:
            m, at = e.x.get("m"), e.x.get("at")
            if m in ("reserve", "size", "begin", "end", "data", "empty", "back", "front", "capacity", "shrink_to_fit"):
                return
            if at is None or m not in ("push_back", "emplace_back", "pop_back"):
                raise Unknown(m)
            loc = self.norm(("idx", e.loc, at))
            if not self.element(loc):
                raise Unknown(m)
            if m == "pop_back":
                old = self.now(loc)
                self.delta[old] -= 1
                if self.delta[old] == 0:
                    del self.delta[old]
                self.flags.append("pop")
            else:
                v = self.val(e.val)
                self.delta[v] += 1
                if self.delta[v] == 0:
                    del self.delta[v]
                self.cur[loc] = v
                self.flags.append("push")
        elif e.k == "w" and e.loc is not None and root_of(e.loc) in self.depth:
            raise Unknown(e)        # a whole list is replaced
        elif e.k == "loop":
            self.loop(e, pa)
        elif e.k in ("cont", "algo", "call") and e.loc is not None and root_of(e.loc) in self.depth:
            raise Unknown(e)

    def touched(self, e):
        return [x for q in e.x["paths"] for x in flat(q.events)
                if x.k in ("w", "push", "cont", "algo") and x.loc is not None and root_of(x.loc) in self.depth
                and x.x.get("m") not in ("reserve",)]

    def loop(self, e, pa):
        if not self.touched(e):
            return
        self.marks.append(e.x["id"])
        lid = e.x["id"]
        k = ("k", lid)
        paths = e.x["paths"]
        if e.x.get("partial") or any(q.end[0] not in ("normal", "continue") for q in paths):
            raise Unknown("exit")
        subs = []
        for q in paths:
            s = Sum(self.depth, seg=lid)
            s.run(q)
            if s.flags:
                raise Unknown("growing loop")
            if s.cols.keys() - {None} and any(c for c in s.cols.values()):
                raise Unknown("columns")
            subs.append((q, s))
        if all(not s.delta for _, s in subs):
            for q, s in subs:
                for loc in s.cur:
                    self.spread(loc, k, q, pa)
            return
        if len(subs) != 1:
            raise Unknown("branches")
        q, s = subs[0]
        writes = list(s.cur)
        if len(writes) != 1:
            raise Unknown("writes")
        loc = writes[0]
        coef = lin_parts(loc[2])[1].get(k, 0)
        if coef not in (1, -1):
            raise Unknown("index")
        K, sure = trips(k, q, pa)
        first, last = subst(loc[2], k, lit(0)), subst(loc[2], k, add(K, lit(-1)))
        past = subst(loc[2], k, K)
        at = lambda i: ("idx", loc[1], i)
        plus = [t for t, n in s.delta.items() if n == 1]
        minus = [t for t, n in s.delta.items() if n == -1]
        if len(plus) != 1 or len(minus) != 1 or len(s.delta) != 2:
            raise Unknown("sum")
        plus, minus = plus[0], minus[0]
        acc = e.x.get("acc") or {}
        carried = [(v, a) for v, a in acc.items() if a[0] is not None and plus == ("val", canon(a[0]))]
        if carried and minus == ("was", loc):
            v, (init, start, after) = carried[0]
            end = q.st.store.get(v)
            if end is None or s.val(end) != minus or start is None:
                raise Unknown("carry")
            a, b = self.val(start), ("val", canon(after))
            if sure:
                b = self.now(at(last))
                self.alias[after] = b
            elif self.empty:
                b = a                   # the case of a loop that does not run
                self.alias[after] = b
            self.add(a, b)
        elif plus[0] == "was" and minus == ("was", loc) and plus[1][1] == loc[1]:
            d = add(plus[1][2], loc[2], -1)
            if not is_num(d):
                raise Unknown("shift")
            if d[1] == coef:
                self.add(self.now(at(past)), self.now(at(first)))
            else:
                raise Unknown("shift")
        elif minus == ("was", loc) and not contains(plus, lambda z: z == k) and not any(plus == ("val", canon(a[0])) for a in acc.values() if a[0] is not None) and (plus[0] == "was" or clean(plus)):
            raise Lost("every place of a range is overwritten with the same value %s" % tshow(plus))
        else:
            raise Unknown("loop %s %s" % (plus, minus))
        lo, hi = (first, last) if coef == 1 else (last, first)
        for l in list(self.cur):
            if l[1] == loc[1]:
                x, y = add(l[2], lo, -1), add(l[2], hi, -1)
                if not (is_num(x) and x[1] < 0 or is_num(y) and y[1] > 0):
                    del self.cur[l]
        self.affected.append((loc[1], lo, hi))

    def add(self, a, b):
        self.delta[a] += 1
        self.delta[b] -= 1
        for t in (a, b):
            if t in self.delta and self.delta[t] == 0:
                del self.delta[t]

    def spread(self, loc, k, q, pa):
        """a loop permutes the places it touches"""
        self.affected.append((loc[1], lit(-10**9), lit(10**9)))


def subst(t, a, v):
    c, p = lin_parts(t)
    n = p.pop(a, 0)
    r = mk_lin(c, p)
    if contains(r, lambda z: z == a):
        raise Unknown(t)
    return add(r, mul(lit(n), v)) if n else r


def trips(k, q, pa):
    """number of iterations of a counted loop, and whether there is at least one"""
    got = []
    for c in q.conds:
        c = canon(c)
        if c[0] == "cmp" and contains(c, lambda z: z == k):
            a, p = lin_parts(c[2])
            n = p.pop(k, 0)
            r = mk_lin(a, p)
            if contains(r, lambda z: isinstance(z, tuple) and z and z[0] in ("load", "at") and False):
                continue
            if c[1] == "le" and n == 1:
                got.append(("le", add(lit(1), r, -1), r))
            elif c[1] == "ne" and n in (1, -1):
                r = r if n == 1 else neg(r)
                got.append(("ne", neg(r), r))
    if len(got) != 1:
        raise Unknown("trips")
    kind, K, r = got[0]
    if kind == "ne":
        r = add(r, lit(1))
    sure = False
    for c in pa.conds:
        c = canon(c)
        if c[0] == "cmp" and c[1] in ("le", "lt"):
            d = add(r, c[2], -1)
            if is_num(d) and d[1] <= (1 if c[1] == "lt" else 0):
                sure = True
    return K, sure


def same_by(conds):
    """terms that the conditions of the path make equal"""
    out = set()
    for c in conds:
        c = canon(c)
        if c[0] == "cmp" and c[1] == "eq":
            out.add(c[2])
            out.add(canon(neg(c[2])))
    return out


def settle(delta, conds):
    """pairs of old values that a condition of the path makes equal cancel"""
    eqs = same_by(conds)
    ts = [(t, n) for t, n in delta.items()]
    for t, n in ts:
        for u, m in ts:
            if n > 0 > m and t[0] == u[0] == "was":
                lt, lu = t[1], u[1]
                if lt[1] == lu[1] and (canon(add(lt[2], lu[2], -1)) in eqs):
                    return {}
                if canon(add(lt, lu, -1)) in eqs:
                    return {}
    return delta


def clean(t):
    return t[0] == "was" or t[0] == "val" and not contains(t[1], lambda z: isinstance(z, tuple) and z and z[0] in ("hav", "havi", "obj", "app", "load"))


KINDS = (("CollectionNode", {"elements": 1}, "move-content", "the values of the collection"),
         ("DisjointListsNode", {"lists": 2}, "move-content", "the elements over all lists"),
         ("DisjointBitSetsNode", {"data": 1}, "move-content", "the memberships of an element"))


def moves_of(p, cls):
    for (n, pt), f in sorted(node_methods(p, cls).items()):
        if n in NOT_MOVES or f.get("body") is None or n.startswith("~"):
            continue
        if not any("std::vector<std::unique_ptr<dwave::optimization::NodeStateData>> &" in t and not t.startswith("const") for t in pt):
            continue
        yield n, f


def writes_state(pa):
    return [e for e in flat(pa.events) if e.k in ("w", "push", "cont", "algo") and e.loc is not None and contains(e.loc, lambda z: z == DATA)]


def rule_moves(ctx):
    p = program()
    ctx.rule("move-content", "a move only rearranges a collection, disjoint lists or disjoint sets: no value is lost, invented or doubled", 3)
    ctx.rule("move-size", "a default move keeps the size of a collection within its declared bounds", 1)
    ctx.rule("move-value", "a value written into a number symbol is in its domain, and their count never changes", 2)
    ctx.rule("move-index", "a default move only touches places that exist", 2)
    ctx.rule("move-draw", "a default move never draws from an empty range", 2)
    decs = [c for c in concrete_nodes(p) if p.is_a(c, NS + "DecisionNode")]
    if not decs:
        raise AnalysisBroken("no decision classes found")
    for cls in decs:
        set_root(None)
        kind = next((k for k in KINDS if p.is_a(cls, NS + k[0])), None)
        num_ = p.is_a(cls, NS + "NumberNode")
        if not kind and not num_:
            continue
        ctx.count("decision classes")
        for n, f in moves_of(p, cls):
            key = "%s::%s" % (short(cls), n)
            with ctx.guard("move-content", key):
                pas = paths_of(p, f, cls) or []
                if not pas:
                    ctx.undecided("move-content", key)
                    continue
                if not any(writes_state(pa) for pa in pas):
                    continue
                ctx.count("moves")
                ctx.count("paths", len(pas))
                if kind:
                    content(ctx, key, f, pas, kind)
                else:
                    values(ctx, key, f, pas, p, cls)
                if n == "default_move":
                    with ctx.guard("move-index", key):
                        if kind and kind[0] == "DisjointListsNode":
                            lists_default(ctx, key, f, pas)
                            continue
                        default(ctx, key, f, pas, p, cls, kind)


def content(ctx, key, f, pas, kind):
    unk = None
    n = 0
    if kind[0] == "DisjointBitSetsNode":
        return columns(ctx, key, f, pas)
    for pa in pas:
        done = False
        for empty in (False, True):
            ev_ = next((e for e in flat(pa.events) if e.k in ("w", "push", "cont") and e.loc is not None and root_of(e.loc) in kind[1]), None)
            try:
                s = Sum(kind[1])
                s.empty = empty
                s.run(pa)
            except Unknown as u:
                unk = u
                break
            except Lost as u:
                ctx.bad("move-content", key, lw(ev_) if ev_ is not None else where(f), "%s changes %s: %s" % (key, kind[3], u))
                return
            d = settle(dict(s.delta), pa.conds)
            if not d:
                done = True
                break
            if all(clean(t) for t in d):
                ctx.bad("move-content", key, lw(ev_) if ev_ is not None else where(f), "%s changes %s: %s" % (
                    key, kind[3], "; ".join("%s %s" % ("gains" if m > 0 else "loses", tshow(t)) for t, m in sorted(d.items(), key=lambda z: -z[1]))))
                return
        if done:
            n += 1
        else:
            unk = unk or Unknown("residue")
    if unk is not None:
        ctx.undecided("move-content", key)
    else:
        ctx.ok("move-content", "%s: %s are conserved on %d paths" % (key, kind[3], n))


def columns(ctx, key, f, pas):
    """disjoint sets: the sum of each element's column, as a linear term over the old content"""
    n, unk = 0, False
    for pa in pas:
        ws = [e for e in flat(pa.events) if e.loc is not None and root_of(e.loc) == "data"]
        if any(e.k == "loop" and any(x.loc is not None and root_of(x.loc) == "data" for q in e.x["paths"] for x in flat(q.events)) for e in pa.events):
            unk = True
            continue
        if any(e.k != "w" or e.loc[0] not in ("idx", "at") or e.x.get("op") in ("+=", "-=", "*=", "++", "--") for e in ws):
            unk = True
            continue
        col, cur, sums = Sum({"data": 1}).column, {}, {}
        for e in ws:
            loc = canon(e.loc)
            c = col(e.loc)
            d = add(canon(e.val), cur.get(loc, loc), -1)
            sums[c] = add(sums.get(c, lit(0)), d)
            cur[loc] = canon(e.val)
        for c, t in sums.items():
            if is_num(t) and t[1] == 0:
                n += 1
                continue
            r = column_change(c, t, pa.conds, col)
            if r is None:
                unk = True
            elif r:
                ctx.bad("move-content", key, lw(ws[0]), "%s changes the number of sets that hold element %s, e.g. %s" % (key, show(c), r))
                return
            else:
                n += 1
    if unk:
        ctx.undecided("move-content", key)
    else:
        ctx.ok("move-content", "%s: the memberships of an element are conserved (%d sums)" % (key, n))


def column_change(c, t, conds, col):
    ats = lambda x: {z for z in subterms(canon(x)) if isinstance(z, tuple) and len(z) == 3 and z[0] in ("idx", "at") and root_of(z) == "data"}
    atoms = sorted(set().union(ats(t), *[ats(x) for x in conds]), key=repr)
    if len(atoms) > 4:
        return None
    cs = [x for x in conds if ats(x)]
    try:
        for env in grid({a: (0, 1) for a in atoms}):
            if any(a != b and env[a] and env[b] and col(a) == col(b) for a in atoms for b in atoms):
                continue
            if not all_true(cs, env):
                continue
            if ev(t, env) != 0:
                return ", ".join("%s was %d" % (show(a)[-40:], v) for a, v in env.items())
    except Unknown:
        return None
    return ""


def tshow(t):
    return show(t[1])[:80]


def values(ctx, key, f, pas, p, cls):
    spec = Spec(p, cls)
    got = False
    for pa in pas:
        conds = [c for c in pa.conds]
        for e in flat(pa.events):
            if e.loc is None or root_of(e.loc) != "buffer":
                continue
            if e.k == "w" and e.loc[0] in ("idx", "at"):
                got = True
                number_value(ctx, key, f, e, pa, spec)
            elif e.k in ("push", "cont") and e.x.get("m") in ("push_back", "emplace_back", "pop_back", "clear", "resize", "erase", "insert"):
                ctx.bad("move-value", key, lw(e), "%s changes the number of elements (%s)" % (key, e.x.get("m")))
                return
    if not got:
        ctx.undecided("move-value", key)


def number_value(ctx, key, f, e, pa, spec):
    v = canon(e.val)
    if v[0] in ("idx", "at") and root_of(v) == "buffer":
        ctx.ok("move-value", "%s: moves a value that is already there" % key)
        return
    isold = lambda z: isinstance(z, tuple) and len(z) == 3 and z[0] in ("idx", "at") and root_of(z) == "buffer"
    rel = lambda t: {z for z in subterms(canon(t)) if isinstance(z, tuple) and z and (isold(z) or z[0] == "param" or drawn(z))}
    # the conditions that speak about the written value's ingredients
    vs = {z for z in rel(v)}
    inner = {z for a in vs if isold(a) for z in rel(a) if z != a}
    vs -= inner
    conds = [c for c in pa.conds if rel(c) & vs and not contains(canon(c), lambda z: isinstance(z, tuple) and z and z[0] == "size")]
    if not vs:
        conds = []
    old = sorted({z for t in [v] + conds for z in subterms(canon(t)) if isold(z)}, key=repr)
    hide = {z for a in old for z in rel(a) if z != a}
    pars = sorted({z for t in [v] + conds for z in rel(t) if z[0] == "param" and z not in hide and str(z[1]) not in ("state", "rng")}, key=repr)
    draws = sorted({z for t in [v] + conds for z in rel(t) if drawn(z) and z not in hide}, key=repr)
    if len(old) > 2 or len(pars) > 2 or len(draws) > 2:
        ctx.undecided("move-value", key)
        return
    flds = set(fields_in(v))
    for c in conds:
        flds |= fields_in(c)
    n = 0
    try:
        for env in spec.envs(flds):
            big = any(isinstance(x, (int, float)) and abs(x) > 100 for x in env.values())
            dom = [x for x in XS + (BIG if big else []) if abs(x) < 1e300 and spec.inside(x, env)]
            ints = [x for x in XS + (BIG if big else []) if abs(x) < 1e300]
            for e1 in grid({**{a: dom for a in old}, **{q: ints for q in pars}}):
                e2s = [{**env, **e1}]
                for d in draws:
                    lo, hi, integ = drawn(d)
                    e2s = [{**x, d: w} for x in e2s for w in sorted({ev(lo, x), ev(hi, x)} | (set() if integ else {(ev(lo, x) + ev(hi, x)) / 2 + 0.25}))]
                for x in e2s:
                    if not all_true(conds, x):
                        continue
                    n += 1
                    w = ev(v, x)
                    if not spec.inside(w, x):
                        ctx.bad("move-value", key, lw(e), "%s may write the value %g%s" % (key, w, witness({k: y for k, y in x.items() if k[0] == "mem"})))
                        return
    except Unknown:
        ctx.undecided("move-value", key)
        return
    ctx.ok("move-value", "%s: %s stays in the domain (%d evaluations)" % (key, show(v)[:70], n))


def default(ctx, key, f, pas, p, cls, kind):
    s, mn, mx, mv, sz = canon(dmem("size")), mem("min_size_"), mem("max_size_"), mem("max_value_"), mem("size_")
    envs = []
    if kind and kind[0] == "CollectionNode":
        for N in range(0, 4):
            for b in ([N] if short(cls).startswith("List") else range(0, N + 1)):
                for a in range(0, b + 1):
                    for v in range(a, b + 1):
                        envs.append({s: v, mn: a, mx: b, mv: N, sz: -1 if a < b else b})
        limit = lambda c, env: env[mv]
    elif kind and kind[0] == "DisjointBitSetsNode":
        P, D = mem("primary_set_size_"), mem("num_disjoint_sets_")
        for a in range(0, 4):
            for b in range(1, 4):
                envs.append({P: a, canon(dmem("primary_set_size")): a, D: b, canon(dmem("num_disjoint_sets")): b})
        limit = lambda c, env: env[P] * env[D]
    else:
        spec = Spec(p, cls)
        for n in range(0, 4):
            for env in spec.envs():
                if all(abs(v) < 100 for v in env.values()):
                    envs.append({**env, sz: n, ("size", canon(dmem("buffer"))): n})
        limit = lambda c, env: env[sz]
    roots = set(kind[1]) if kind else {"buffer"}
    cnt = {"move-index": 0, "move-draw": 0, "move-size": 0}
    unk = set()
    for pa in pas:
        terms = list(pa.conds) + [t for e in flat_top(pa.events) for t in (e.loc, e.val) if t is not None] + \
            [t for e in flat_top(pa.events) if e.k == "call" for t in [e.x.get("obj")] + list(e.x.get("args") or ()) if isinstance(t, tuple)]
        terms = [canon(t) for t in terms]
        acc = {z for t in terms for z in subterms(t) if isinstance(z, tuple) and len(z) == 3 and z[0] in ("idx", "at") and root_of(z) in roots}
        dists = {z for t in terms for z in subterms(t) if isinstance(z, tuple) and z and z[0] == "app" and isinstance(z[1], str) and z[1].startswith("ctor:std::uniform_int_distribution") and len(z[3]) == 2}
        dists |= {canon(t) for e in flat_top(pa.events) if e.k == "call" and isinstance(e.x.get("obj"), tuple) for t in [e.x["obj"]]
                  if t[0] == "app" and isinstance(t[1], str) and t[1].startswith("ctor:std::uniform_int_distribution") and len(t[3]) == 2}
        fsize = [canon(e.val) for e in pa.events if e.k == "w" and e.loc is not None and canon(e.loc) == s]
        for env in envs:
            # draws first: their bounds under the conditions that do not depend on what is drawn
            free = [c for c in pa.conds if not any(drawn(z) for z in subterms(canon(c)))]
            try:
                live = maybe(free, env)
            except Unknown:
                live = None
            if live is False:
                continue
            for d in dists:
                try:
                    lo, hi = ev(d[3][0], env), ev(d[3][1], env)
                except Unknown:
                    unk.add("move-draw")
                    continue
                if live is None:
                    unk.add("move-draw")
                elif lo > hi:
                    ctx.bad("move-draw", key, where(f), "%s draws from the empty range [%d, %d]%s" % (key, lo, hi, witness(env)))
                    return
                else:
                    cnt["move-draw"] += 1
            try:
                full = all_draws(terms, env)
            except Unknown:
                unk.add("move-index")
                continue
            for e2 in full:
                try:
                    if not all_true([c for c in pa.conds if not contains(canon(c), lambda z: z in acc)], e2):
                        continue
                except Unknown:
                    unk.add("move-index")
                    continue
                for z in acc:
                    lim = limit(z[1], e2)
                    if lim is None:
                        unk.add("move-index")
                        continue
                    try:
                        i = ev(z[2], e2)
                    except Unknown:
                        unk.add("move-index")
                        continue
                    if not 0 <= i < lim:
                        ctx.bad("move-index", key, where(f), "%s touches place %d of %d%s" % (key, i, lim, witness(e2)))
                        return
                    cnt["move-index"] += 1
                if fsize and kind and kind[0] == "CollectionNode":
                    try:
                        v = ev(fsize[-1], e2)
                    except Unknown:
                        unk.add("move-size")
                        continue
                    if not e2[mn] <= v <= e2[mx]:
                        ctx.bad("move-size", key, where(f), "%s leaves %d values%s" % (key, v, witness(e2)))
                        return
                    cnt["move-size"] += 1
    for r in cnt:
        if r in unk:
            ctx.undecided(r, key)
        elif cnt[r]:
            ctx.ok(r, "%s (%d evaluations)" % (key, cnt[r]))


def flat_top(evs):
    """events of the path outside loops"""
    return [e for e in evs if e.k != "loop"]


def maybe(conds, env):
    for c in conds:
        try:
            if not ev(c, env):
                return False
        except Unknown:
            raise
    return True


def all_draws(terms, env):
    ds = sorted({z for t in terms for z in subterms(t) if isinstance(z, tuple) and z and drawn(z)}, key=repr)
    if len(ds) > 3:
        raise Unknown("draws")
    envs = [dict(env)]
    for d in ds:
        lo, hi, integ = drawn(d)
        if not integ:
            raise Unknown("real")
        nxt = []
        for e in envs:
            for v in range(int(ev(lo, e)), int(ev(hi, e)) + 1):
                nxt.append({**e, d: v})
        envs = nxt
    return envs


def lists_default(ctx, key, f, pas):
    """draws of lists and of elements in lists, compared as terms"""
    L = canon(dmem("lists"))
    ok = Counter()
    unk = set()
    isdist = lambda z: isinstance(z, tuple) and len(z) == 4 and z[0] == "app" and isinstance(z[1], str) and z[1].startswith("ctor:std::uniform_int_distribution") and len(z[3]) == 2
    for pa in pas:
        evs = list(flat(pa.events))
        terms = [canon(t) for e in evs for t in (e.loc, e.val) if t is not None] + [canon(c) for c in pa.conds]
        terms += [canon(e.x["obj"]) for e in evs if e.k == "call" and isinstance(e.x.get("obj"), tuple)]
        acc, dists = set(), set()
        for t in terms:
            for z in subterms(t):
                if not isinstance(z, tuple) or not z:
                    continue
                if len(z) == 3 and z[0] in ("idx", "at") and (z[1] == L or z[1][0] in ("idx", "at") and z[1][1] == L):
                    acc.add(z)
                if isdist(z):
                    dists.add(z)
        carried = {}
        for e in pa.events:
            if e.k == "loop":
                for v, (ini, start, after) in (e.x.get("acc") or {}).items():
                    if after is not None:
                        carried[canon(after)] = (e, v, ini, start)
        pos = [canon(c) for c in pa.conds]

        def nonempty(c):
            """the list c is known to have elements"""
            n = ("size", c)
            if any(x == n or x == ("tr", n) or x[0] == "cmp" and x[1] in ("le", "lt", "ne") and contains(x, lambda z: z == n) and not contains(x, isdist) for x in pos):
                return True
            x = c[2]
            if x in carried:
                e, v, ini, start = carried[x]
                for q in e.x["paths"]:
                    end = q.st.store.get(v)
                    if end is None:
                        return None
                    end = canon(end)
                    if end == canon(ini):
                        continue
                    m = ("size", ("idx", L, end))
                    if not any(contains(canon(y), lambda z: z == m) and positive(canon(y), m) for y in q.conds):
                        return False
                return True
            if drawn(x):
                return False
            return None
        for d in dists:
            lo, hi = d[3]
            r = add(hi, lo, -1)
            if is_num(r):
                if r[1] < 0:
                    ctx.bad("move-draw", key, where(f), "%s draws from the empty range [%s, %s]" % (key, show(lo), show(hi)))
                    return
                ok["move-draw"] += 1
                continue
            sz = [z for z in lin_parts(r)[1]]
            c0 = lin_parts(r)[0]
            if len(sz) == 1 and lin_parts(r)[1][sz[0]] == 1 and sz[0][0] == "size":
                if c0 >= 0 or sz[0][1] == L and c0 == -1:
                    ok["move-draw"] += 1
                    continue
                if c0 == -1:
                    ne = nonempty(sz[0][1])
                    if ne is False:
                        ctx.bad("move-draw", key, where(f), "%s draws a place in %s, which may be empty" % (key, show(sz[0][1])))
                        return
                    if ne:
                        ok["move-draw"] += 1
                        continue
            unk.add("move-draw")
        for z in acc:
            dr = drawn(z[2])
            if dr:
                a, b = dr[0], add(dr[1], ("size", z[1]), -1)
                if is_num(a) and a[1] < 0 or is_num(b) and b[1] >= 0:
                    ctx.bad("move-index", key, where(f), "%s touches a place drawn from [%s, %s] of %s" % (key, show(dr[0]), show(dr[1]), show(z[1])))
                    return
                if is_num(a) and is_num(b):
                    ok["move-index"] += 1
                else:
                    unk.add("move-index")
        # an insertion starts at or before the end
        for e in pa.events:
            if e.k != "loop":
                continue
            ws = [x for q in e.x["paths"] for x in q.events if x.k == "w" and x.loc is not None and root_of(x.loc) == "lists"]
            if not ws or len(e.x["paths"]) != 1:
                continue
            try:
                K, _ = trips(("k", e.x["id"]), e.x["paths"][0], pa)
            except Unknown:
                continue
            c, ps = lin_parts(K)
            r = K
            for a, k in list(ps.items()):
                if drawn(a):
                    r = add(add(r, mul(lit(k), a), -1), mul(lit(k), drawn(a)[1] if k < 0 else drawn(a)[0]))
            if is_num(r):
                if r[1] < 0:
                    ctx.bad("move-index", key, where(f), "%s inserts beyond the end of a list" % key)
                    return
                ok["move-index"] += 1
    for r in ("move-index", "move-draw"):
        if r in unk:
            ctx.undecided(r, key)
        elif ok[r]:
            ctx.ok(r, "%s (%d draws and places)" % (key, ok[r]))


def positive(c, m):
    """the condition implies that m is at least one"""
    if c == m or c == ("tr", m):
        return True
    if c[0] == "cmp":
        a, p = lin_parts(c[2])
        if set(p) == {m}:
            if c[1] == "le" and p[m] < 0:
                return a >= 1
            if c[1] == "lt" and p[m] < 0:
                return a >= 0
            if c[1] == "ne":
                return a == 0
    return False

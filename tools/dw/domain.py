"""Initial states of decisions are in their domain (P10); moves keep them there (P11)."""
import math
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods, paths_of
from .graphp import where, lw
from .finite import *

TI = "topological_index_"
THIS = ("this",)


def mem(n):
    return ("mem", THIS, n)


def final(p, cls, name, n=0):
    for (m, pt), f in node_methods(p, cls).items():
        if m == name and len(pt) == n and f.get("body") is not None:
            return f
    return None


def ret_terms(p, cls, name):
    f = final(p, cls, name)
    if f is None:
        return []
    return [(pa.conds, pa.end[1]) for pa in paths_of(p, f, cls) or [] if pa.end[0] == "ret"]


def fixed_fields(p, cls):
    """members every constructor gives the same literal value"""
    vals = {}
    n = 0
    for f in p.methods_of(cls):
        if not f.get("isctor") or not f["params"] or f.get("body") is None:
            continue
        if any(cls.split("::")[-1] in q["t"] for q in f["params"]):
            continue
        for pa in paths_of(p, f, cls) or []:
            if pa.throws:
                continue
            n += 1
            got = {}
            for e in pa.events:
                if e.k in ("w", "init") and e.loc is not None and e.loc[0] == "mem" and e.loc[1] == THIS and e.val is not None:
                    try:
                        got[canon(e.loc)] = ev(e.val, {})
                    except Unknown:
                        got[canon(e.loc)] = None
            for k, v in got.items():
                vals.setdefault(k, set()).add(v)
    return {k: next(iter(v)) for k, v in vals.items() if len(v) == 1 and next(iter(v)) is not None} if n else {}


class Spec:
    """what the class itself declares about its elements: min(), max(), integral()"""

    def __init__(self, p, cls):
        self.cls = cls
        self.lo = ret_terms(p, cls, "min")
        self.hi = ret_terms(p, cls, "max")
        integ = ret_terms(p, cls, "integral")
        self.integral = bool(integ) and all(t == ("lit", True) or t == ("lit", 1) for _, t in integ)
        self.fixed = fixed_fields(p, cls)
        if len(self.lo) != 1 or len(self.hi) != 1:
            raise Unknown(cls)
        self.lo, self.hi = self.lo[0][1], self.hi[0][1]
        self.atoms = sorted(fields_in(self.lo) | fields_in(self.hi), key=repr)

    def envs(self, extra=()):
        """all small assignments of the bounds that a constructed object can have"""
        at = {a: ([self.fixed[a]] if a in self.fixed and isinstance(self.fixed[a], (int, float)) else list(range(-2, 4)))
              for a in list(self.atoms) + [x for x in extra if x not in self.atoms]}
        for env in grid(at):
            if ev(self.lo, env) <= ev(self.hi, env):
                yield env
        # and a few far apart, where a comparison with a relative tolerance would show
        if all(len(v) > 1 for v in at.values()):
            for lo, hi in ((0, 2000000000), (-2000000000, 2000000000), (-2000000000, -1000000000), (1000000000, 1000000000)):
                for env in grid({a: [lo, hi] for a in at}):
                    if ev(self.lo, env) == lo and ev(self.hi, env) == hi:
                        yield env

    def inside(self, x, env):
        if abs(x) == math.inf:
            return False
        return ev(self.lo, env) <= x <= ev(self.hi, env) and (not self.integral or x == int(x))


def state_paths(p, f, cls):
    """paths that store the node's state, with the index of the storing event and the stored object"""
    out = []
    for pa in paths_of(p, f, cls) or []:
        if pa.throws:
            continue
        st = [(i, e) for i, e in enumerate(pa.events) if e.k == "w" and e.loc[0] == "idx" and contains(e.loc[2], lambda z: z == mem(TI)) and e.val is not None and e.val[0] == "new"]
        out.append((pa, st))
    return out


def stored_fields(e):
    v = e.val
    if len(v) > 2 and v[2][0] == "obj":
        return [x for _, x in v[2][2]]
    return []


def data_param(f):
    for q in f["params"][1:]:
        if "vector<" in q["t"] or "span<" in q["t"]:
            return ("param", q["n"])
    return None


def loop_elements(lp, root):
    """the terms in a loop's paths that denote an element of root"""
    out = set()
    for q in lp.x["paths"]:
        for t in list(q.conds) + [e.val for e in flat(q.events) if e.val is not None] + ([q.end[1]] if q.end[0] == "ret" else []):
            if isinstance(t, tuple):
                for z in subterms(canon(t)):
                    if len(z) == 3 and z[0] in ("at", "idx") and base_of(z) == root:
                        out.add(z)
    return out


def base_of(z):
    while len(z) == 3 and z[0] in ("at", "idx"):
        z = z[1]
    return z


def depth(z):
    d = 0
    while len(z) == 3 and z[0] in ("at", "idx"):
        z = z[1]
        d += 1
    return d


NEGATIVE = {"find_if_not": True, "find_if": False, "all_of": True, "any_of": False, "none_of": False, "count_if": False}


def algo_polarity(lp, conds):
    """what every element's predicate must have answered on a path with these conditions; None if unknown"""
    name = lp.x["kind"]
    if name not in NEGATIVE:
        return None
    for c in conds:
        cc = canon(c)
        hit = [z for z in subterms(cc) if len(z) == 4 and z[0] == "app" and z[1] == name and contains(z, lambda y: y == ("k", lp.x["id"]))]
        if not hit:
            continue
        if name in ("find_if", "find_if_not"):
            if cc[0] == "cmp" and contains(cc, lambda z: z[0] == "iter" and len(z) > 2):
                if cc[1] == "eq":
                    return NEGATIVE[name]
                if cc[1] == "ne":
                    return "some"
            return None
        if name == "all_of":
            return True if cc == hit[0] else "some" if cc == ("not", hit[0]) else None
        if name in ("any_of", "none_of"):
            pos = cc == hit[0]
            ng = cc == ("not", hit[0])
            if not pos and not ng:
                return None
            if name == "any_of":
                return False if ng else "some"
            return False if pos else "some"
        if name == "count_if":
            if cc == ("cmp", "eq", hit[0]) or cc == ("not", hit[0]):
                return False
            return None
    return "unused"


def is_insert(z):
    return len(z) > 1 and z[0] == "app" and z[1] == "inserted"


def element_ok(lp, conds, root, x, env, d):
    """may an element of value x (at nesting depth d) pass this loop of an accepting path? raises Unknown"""
    pol = "loop"
    if lp.x["kind"] not in ("for", "rfor", "while", "do"):
        pol = algo_polarity(lp, conds)
        if pol is None:
            raise Unknown(lp.x["kind"])
        if pol in ("unused", "some"):
            return True
    els = [z for z in loop_elements(lp, root) if depth(z) == d]
    if not els:
        return True

    def get(t):
        if len(t) == 3 and t[0] in ("at", "idx") and base_of(t) == root and depth(t) == d:
            return x
        return env.get(t)
    unk = None
    for q in lp.x["paths"]:
        if pol == "loop" and q.end[0] not in ("normal", "continue"):
            continue
        # whether a value was seen before is the business of init-unique
        cs = [c for c in q.conds if contains(canon(c), lambda z: z in els) and not contains(c, is_insert)]
        try:
            if not all_true(cs, get):
                continue
            if pol != "loop":
                if q.end[0] != "ret" or bool(ev(q.end[1], get)) != pol:
                    continue
            # inner loops of this iteration
            ok = True
            for e in q.events:
                if e.k == "loop" and not e.x.get("partial"):
                    if not element_ok(e, q.conds, root, x, env, d):
                        ok = False
            if ok:
                return True
        except Unknown as u:
            unk = u
    if unk is not None:
        raise unk
    return False


XS = [i / 2 for i in range(-6, 12)]
BIG = [1e9 + 0.5, 2e9 - 0.25, 1e9 + 1e-3, 1e9, 2e9, 2e9 + 1, 2e9 + 0.5, -1e9, -1e9 - 0.5, 123456789.5, 1e5 + 0.25, 0.0001, -0.0001, 0.999999, 1.000001, float("inf"), float("-inf")]


def rule_init(ctx):
    p = program()
    ctx.rule("init-element", "an explicit initial state is accepted exactly if every element is in the declared domain", 2)
    ctx.rule("init-size", "an explicit initial state is accepted exactly if it has the declared size", 2)
    ctx.rule("init-unique", "values of a collection, or of disjoint sets and lists, are accepted only if none occurs twice", 1)
    ctx.rule("init-complete", "disjoint sets and lists are accepted only if they hold every element, and a collection's hidden part holds the rest", 1)
    ctx.rule("init-stored", "the accepted values are stored as they are", 2)
    ctx.rule("init-default", "default and random initial states are in the domain", 2)
    decs = [c for c in concrete_nodes(p) if p.is_a(c, NS + "DecisionNode")]
    if not decs:
        raise AnalysisBroken("no decision classes found")
    for cls in decs:
        ctx.count("decision classes")
        set_root(None)
        for (n, pt), f in sorted(node_methods(p, cls).items()):
            if n != "initialize_state" or f.get("body") is None:
                continue
            with ctx.guard("init-element", short(cls)):
                sp = state_paths(p, f, cls)
                if not any(st for _, st in sp):
                    ctx.undecided("init-stored", "%s(%s)" % (short(cls), ", ".join(pt)))
                    continue
                data = data_param(f)
                ctx.count("paths", len(sp))
                # the members the data are moved into (a refusing path still shows the construction)
                every = paths_of(p, f, cls) or [] if data is not None else []
                aliases = sorted({canon(e.loc) for q in every for e in flat(q.events) if e.k == "init" and e.val is not None and canon(e.val) == data})
                for pa, st in sp:
                    set_root(None)
                    if data is not None:
                        set_root(data, aliases)
                    if len(st) != 1:
                        if not st:
                            ctx.undecided("init-stored", "%s leaves no recognised state when %s" % (short(cls), show_c(pa)))
                        continue
                    if p.is_a(cls, NS + "NumberNode"):
                        number(ctx, p, cls, f, pa, st[0], data)
                    elif p.is_a(cls, NS + "CollectionNode"):
                        collection(ctx, p, cls, f, pa, st[0], data)
                    elif short(cls).startswith("Disjoint"):
                        disjoint(ctx, p, cls, f, pa, st[0], data)
                    else:
                        ctx.undecided("init-element", short(cls))


def show_c(pa):
    return "; ".join(show(c) for c in pa.conds)[:200]


def loops_before(pa, i):
    return [e for e in pa.events[:i] if e.k == "loop" and not e.x.get("partial")]


def elements(ctx, key, f, pa, i, root, envs, inside, d=1, fmt=""):
    """compare acceptance with the domain, for every small assignment"""
    lps = loops_before(pa, i)
    unk = False
    n = 0
    for env in envs:
        for x in XS + BIG:
            acc = True
            try:
                for lp in lps:
                    if not element_ok(lp, pa.conds, root, x, env, d):
                        acc = False
                        break
            except (Unknown, OverflowError):
                unk = unk or abs(x) != math.inf
                continue
            n += 1
            if acc and not inside(x, env):
                ctx.bad("init-element", key, where(f), "%s accepts the value %g%s" % (key, x, witness(env)))
                return
            if not acc and inside(x, env):
                # a path of its own may accept it
                unk = unk or False
                ctx.bad("init-element", key + " refuses", where(f), "%s refuses the value %g%s, which is in the domain" % (key, x, witness(env)))
                return
    ctx.count("guard evaluations", n)
    if unk:
        ctx.undecided("init-element", key)
    else:
        ctx.ok("init-element", "%s: accepted exactly when in the domain (%d assignments)" % (key, n))


def witness(env):
    if not env:
        return ""
    return " (with %s)" % ", ".join("%s = %s" % (show(k), v) for k, v in sorted(env.items(), key=repr))


def covers(lp, pa, root, key, f, ctx, env, size, d=1):
    """every element is looked at: counted loops run over 0..size-1"""
    if lp.x["kind"] == "rfor" or lp.x["kind"] in NEGATIVE:
        r = lp.x.get("range")
        if r is None:
            return None
        r = canon(r)
        if r == root:
            return True
        if r[0] in ("drop", "take"):
            return False
        return None
    if lp.x["kind"] != "for":
        return None
    k = ("k", lp.x["id"])
    els = [z for z in loop_elements(lp, root) if depth(z) == d and contains(z[2], lambda y: y == k)]
    if not els:
        return None
    seen = set()
    for kv in range(size + 2):
        e2 = dict(env)
        e2[k] = kv
        live = False
        for q in lp.x["paths"]:
            if q.end[0] not in ("normal", "continue", "throw"):
                continue
            cs = [c for c in q.conds if contains(canon(c), lambda z: z == k) and not contains(canon(c), lambda z: z in els)]
            try:
                live = live or all_true(cs, e2)
            except Unknown:
                return None
        if not live:
            break
        for z in els:
            try:
                seen.add(ev(z[2], e2))
            except Unknown:
                return None
    return set(range(size)) <= seen


def coverage(ctx, key, f, pa, i, root, env, size, d=1):
    lps = [lp for lp in loops_before(pa, i) if any(depth(z) == d for z in loop_elements(lp, root))]
    rs = [covers(lp, pa, root, key, f, ctx, env, size, d) for lp in lps]
    for lp, r in zip(lps, rs):
        if r is False:
            ctx.bad("init-element", key + " coverage", lw(lp), "%s does not look at every element" % key)
            return
    if lps and all(r is True for r in rs):
        ctx.ok("init-element", "%s: every element is looked at" % key)
    elif lps:
        ctx.undecided("init-element", key + ": coverage")


def size_atom(conds, root):
    return ("size", root)


def sizes(ctx, key, f, pa, root, dom, allowed, what="elements"):
    """conditions on the number of elements against the declared range: dom = {atom: values}, allowed(n, env) -> bool"""
    cs = [c for c in pa.conds if is_size_cond(c, root)]
    unk = False
    for env in dom:
        for n in range(0, 7):
            def get(t, n=n, env=env):
                if t[0] == "size" and len(t) > 1 and t[1] == root:
                    return n
                return env.get(t)
            try:
                acc = all_true(cs, get)
            except Unknown:
                unk = True
                continue
            if acc != allowed(n, env):
                ctx.bad("init-size", key, where(f), "%s %s %d %s%s" % (key, "accepts" if acc else "refuses", n, what, witness(env)))
                return
    if unk:
        ctx.undecided("init-size", key)
    else:
        ctx.ok("init-size", key)


def is_size_cond(c, root):
    """only sizes, fields and constants"""
    c = canon(c)
    if not contains(c, lambda z: len(z) > 1 and z[0] == "size" and z[1] == root):
        return False
    return not contains(c, lambda z: z and z[0] == "app")


def number(ctx, p, cls, f, pa, st, data):
    key = "%s(%s)" % (short(cls), "data" if data else "rng" if len(f["params"]) > 1 else "default")
    i, e = st
    try:
        spec = Spec(p, cls)
    except Unknown:
        ctx.undecided("init-element", key)
        return
    flds = stored_fields(e)
    if data is not None:
        elements(ctx, key, f, pa, i, data, list(spec.envs()), spec.inside)
        szs = [t for _, t in ret_terms(p, cls, "size")]
        szatoms = {a for c in pa.conds for a in fields_in(c) if is_size_cond(c, data)}
        env = next(iter(spec.envs()))
        for a in szatoms:
            env[a] = 3
        env[("size", data)] = 3
        coverage(ctx, key, f, pa, i, data, env, 3)
        a = mem("size_")
        if any(a in fields_in(t) for t in szs) or not szs:
            sizes(ctx, key, f, pa, data, [{a: v, **{b: 3 for b in szatoms if b != a}} for v in range(0, 5)], lambda n, env: n == env[a])
        else:
            ctx.undecided("init-size", key)
        stored_as_is(ctx, key, f, pa, i, e, data)
        return
    # default / random
    src = next((z for t in flds for z in subterms(canon(t)) if len(z) == 4 and z[0] == "app" and z[1].startswith("ctor:std::vector<double>")), None)
    if src is None:
        ctx.undecided("init-default", key)
        return
    if len(src[3]) >= 2 and src[3][1][0] != "obj":
        known = set(spec.atoms)
        cs = [c for c in pa.conds if fields_in(c) and set(fields_in(c)) <= known and not contains(canon(c), lambda z: z and z[0] in ("app", "size", "at", "hav", "havi"))]
        value_in(ctx, "init-default", key, f, src[3][1], spec, cs)
        return
    gens = [x for x in pa.events[:i] if x.k == "loop" and x.x["kind"] in ("generate", "generate_n", "rfor", "for")]
    got = False
    for g in gens:
        for q in g.x["paths"]:
            vals = [q.end[1]] if q.end[0] == "ret" else [x.val for x in q.events if x.k == "w" and contains(canon(x.loc), lambda z: z == src)]
            for v in vals:
                got = True
                value_in(ctx, "init-default", key, f, v, spec, q.conds)
    if not got:
        ctx.undecided("init-default", key)


def drawn(t):
    """(lowest, highest, integral) of a value drawn from a uniform distribution, else None"""
    t = canon(t)
    if t[0] == "app" and t[1] == "call" and t[2][0] == "app" and "uniform_" in str(t[2][1]) and len(t[2][3]) == 2:
        return t[2][3][0], t[2][3][1], "uniform_int" in t[2][1]
    return None


def draw_env(t, env):
    """environments giving every drawn value in t each end of its range; raises Unknown"""
    ds = {z for z in subterms(canon(t)) if drawn(z)}
    if len(ds) > 2:
        raise Unknown(t)
    envs = [dict(env)]
    for d in ds:
        lo, hi, integ = drawn(d)
        nxt = []
        for e in envs:
            a, b = ev(lo, e), ev(hi, e)
            for v in sorted({a, b} | ({(a + b) / 2 + 0.25} if not integ else set())):
                e2 = dict(e)
                e2[d] = v
                nxt.append(e2)
        envs = nxt
    return envs


def value_in(ctx, rule, key, f, v, spec, conds, extra=(), what="may be given"):
    """a stored value lies in the domain, for all bounds"""
    flds = set(fields_in(v))
    for c in conds:
        flds |= fields_in(c)
    unk = False
    other = {z for t in [v] + list(conds) for z in subterms(canon(t)) if z and (z[0] == "param" or drawn(z) is None and z[0] in ("at",))}
    pars = sorted({z for z in other if z[0] == "param" and str(z[1]) not in ("rng", "state")}, key=repr)
    for env in spec.envs(flds):
        try:
            for pe in grid({q: XS for q in pars}):
                pe = {**env, **pe}
                for e in draw_env(("list", (v,) + tuple(conds)), pe):
                    if not all_true(conds, e):
                        continue
                    x = ev(v, e)
                    if not spec.inside(x, e):
                        ctx.bad(rule, key, where(f), "%s %s the value %g%s" % (key, what, x, witness({k: w for k, w in e.items() if k[0] == "mem"})))
                        return
        except Unknown:
            unk = True
    if unk:
        ctx.undecided(rule, key)
    else:
        ctx.ok(rule, "%s: %s stays in the domain" % (key, show(v)[:80]))


def changes_data(pa, i, data):
    return [x for x in flat(pa.events[:i]) if x.k in ("w", "push", "cont", "algo") and x.loc is not None and base_of(canon(x.loc)) == data]


def stored_as_is(ctx, key, f, pa, i, e, data):
    ch = changes_data(pa, i, data)
    flds = [canon(t) for t in stored_fields(e)]
    if ch:
        ws = [x for x in ch if x.k == "w" and x.val is not None and not contains(canon(x.val), lambda z: z == canon(x.loc))]
        if ws and all(x.val[0] == "lit" for x in ws):
            ctx.bad("init-stored", key, lw(ws[0]), "%s changes the given values before storing them" % key)
        else:
            ctx.undecided("init-stored", key)
        return
    if data in flds:
        ctx.ok("init-stored", key)
    elif any(contains(t, lambda z: z == data) for t in flds):
        ctx.undecided("init-stored", key)
    elif flds and not any(contains(t, lambda z: z and z[0] in ("hav", "opaque", "havi", "tmp")) for t in flds[:1]):
        ctx.bad("init-stored", key, lw(e), "%s does not store the given values" % key)
    else:
        ctx.undecided("init-stored", key)


# ------------------------------------------------------------------ collections
def collection(ctx, p, cls, f, pa, st, data):
    key = "%s(%s)" % (short(cls), "data" if data else "default")
    i, e = st
    try:
        spec = Spec(p, cls)
    except Unknown:
        ctx.undecided("init-element", key)
        return
    mn, mx = mem("min_size_"), mem("max_size_")
    spec.integral = True
    if data is None:
        rest(ctx, key, f, pa, i, e, spec, None, p)
        return
    elements(ctx, key, f, pa, i, data, [v for v in spec.envs() if ev(spec.hi, v) <= 3], spec.inside)
    env = {a: 3 for a in spec.atoms}
    env[("size", data)] = 3
    coverage(ctx, key, f, pa, i, data, env, 3)
    more = sorted({a for c in pa.conds if is_size_cond(c, data) for a in fields_in(c)} - {mn, mx}, key=repr)
    fixed_size = short(cls).startswith("List")
    dom = [{mn: a, mx: b, **more_e} for a in range(0, 5) for b in range(a, 5) for more_e in grid({m: ([b] if fixed_size else range(b, 6)) for m in more})]
    sizes(ctx, key, f, pa, data, dom, lambda n, env: env[mn] <= n <= env[mx])
    unique(ctx, key, f, pa, i, data)
    rest(ctx, key, f, pa, i, e, spec, data, p)


FILLED = set()


def filled_sets(pa, i, data):
    """local sets that receive every element in a loop"""
    out = {}
    for lp, q, x in inserts(loops_before(pa, i), data):
        out.setdefault(canon(x.loc), []).append((lp, q))
    res = set()
    for loc, ws in out.items():
        lp = ws[0][0]
        going = [q for q in lp.x["paths"] if q.end[0] in ("normal", "continue")]
        if lp.x["kind"] == "rfor" and lp.x.get("range") is not None and canon(lp.x["range"])[0] not in ("drop", "take") and all(any(w[1] is q for w in ws) for q in going):
            res.add(loc)
    return res


def set_of(t, root):
    """t is a set container made of all elements of root"""
    t = canon(t)
    if t in FILLED:
        return True
    if t[0] == "deref":
        t = t[1]
    return t[0] == "app" and ("set<" in t[1]) and t[1].startswith("ctor:") and len(t[3]) >= 2 and t[3][0][:1] == ("iter",) and t[3][0][1] == root \
        and t[3][0][2] == ("lit", 0) and t[3][1][:1] == ("iter",) and t[3][1][2] == ("size", root) or t[0] == "app" and "set<" in t[1] and t[3] and t[3][0] == root


def unique(ctx, key, f, pa, i, data, d=1):
    """no value twice: a set of all of them is as large, or each is newly inserted into a set"""
    FILLED.clear()
    FILLED.update(filled_sets(pa, i, data))
    # sizes of sets
    cs = [c for c in pa.conds if any(z[0] == "size" and len(z) > 1 and set_of(z[1], data) for z in subterms(canon(c)) if z)]
    if cs and d == 1:
        sets = {z for c in cs for z in subterms(canon(c)) if z and z[0] == "size" and set_of(z[1], data)}
        try:
            for n in range(0, 5):
                for m in range(0 if n == 0 else 1, n + 1):
                    def get(t, n=n, m=m):
                        if t in sets:
                            return m
                        if t == ("size", data) or t[0] == "size" and t[1] == data:
                            return n
                        return None
                    acc = all_true(cs, get)
                    if acc and m < n:
                        ctx.bad("init-unique", key, where(f), "%s accepts %d elements with only %d different values" % (key, n, m))
                        return
                    if not acc and m == n:
                        ctx.bad("init-unique", key, where(f), "%s refuses %d different values" % (key, n))
                        return
            ctx.ok("init-unique", key)
        except Unknown:
            ctx.undecided("init-unique", key)
        return
    ins = inserts(loops_before(pa, i), data)
    if ins:
        for lp, q, t in ins:
            if q.end[0] in ("normal", "continue"):
                verdict = None
                for c in q.conds:
                    c = canon(c)
                    if contains(c, lambda z: len(z) > 1 and (z[0] == "inserted" or z[1] == "inserted")):
                        if c[0] == "not":
                            verdict = False
                        else:
                            verdict = True if verdict is None else verdict
                if verdict is None:
                    # a test of membership before the insertion
                    if any(contains(canon(c), lambda z: len(z) > 1 and z[0] == "app" and z[1] in ("count", "contains", "find")) for c in q.conds):
                        ctx.undecided("init-unique", key)
                        return
                    ctx.bad("init-unique", key, lw(lp), "%s accepts a value that was there already" % key)
                    return
                if verdict is False:
                    ctx.bad("init-unique", key, lw(lp), "%s goes on with a value that was there already" % key)
                    return
        ctx.ok("init-unique", key)
        return
    if counted(ctx, key, f, pa, i, data):
        return
    calls = [e for e in flat(pa.events[:i]) if e.k in ("algo", "call") and e.x.get("name") in ("sort", "adjacent_find", "unique", "stable_sort")]
    if calls or any(contains(canon(c), lambda z: len(z) > 1 and z[0] in ("app", "opaque", "hav")) for c in pa.conds if contains(canon(c), lambda z: z == data)):
        ctx.undecided("init-unique", key)
        return
    if any(e.k == "loop" and any(e2.k in ("w", "push") for q in e.x["paths"] for e2 in flat(q.events)) for e in pa.events[:i]) and False:
        ctx.undecided("init-unique", key)
        return
    ctx.bad("init-unique", key, where(f), "%s accepts the same value more than once" % key)


def inserts(lps, data):
    out = []
    for lp in lps:
        for q in lp.x["paths"]:
            for e in q.events:
                if e.k == "push" and e.x.get("m") in ("insert", "emplace") and e.val is not None and contains(canon(e.val), lambda z: len(z) == 3 and z[0] in ("at", "idx") and base_of(z) == data):
                    out.append((lp, q, e))
                if e.k == "loop" and not e.x.get("partial"):
                    out += inserts([e], data)
    return out


def counted(ctx, key, f, pa, i, data):
    """occurrences are counted per element and every count must be exactly one"""
    cnt = None
    for e in flat(pa.events[:i]):
        if e.k == "w" and e.loc[0] == "idx" and e.val is not None and contains(canon(e.val), lambda z: z == canon(e.loc)) and contains(canon(e.val), lambda z: len(z) == 3 and base_of(z) == data):
            cnt = (e, canon(e.loc[1]))
    if cnt is None:
        return False
    e, arr = cnt
    el = [z for z in subterms(canon(e.val)) if len(z) == 3 and z[0] in ("at", "idx") and base_of(z) == data and depth(z) == max(depth(y) for y in subterms(canon(e.val)) if len(y) == 3 and base_of(y) == data)]
    # the counter goes up by the element's value, at the element's position
    try:
        for x in (0, 1):
            if ev(e.val, {canon(e.loc): 5, el[0]: x}) != 5 + x:
                ctx.bad("init-unique", key, lw(e), "%s counts an element of value %d as %g" % (key, x, ev(e.val, {canon(e.loc): 5, el[0]: x}) - 5))
                return True
    except Unknown:
        ctx.undecided("init-unique", key)
        return True
    if canon(e.loc[2]) != el[0][2]:
        ctx.bad("init-unique", key, lw(e), "%s counts element %s at %s" % (key, show(el[0][2]), show(e.loc[2])))
        return True
    for lp in loops_before(pa, i):
        els = {z for q in lp.x["paths"] for c in list(q.conds) + ([q.end[1]] if q.end[0] == "ret" and q.end[1] is not None else [])
               for z in subterms(canon(c)) if len(z) == 3 and z[0] in ("at", "idx") and z[1] == arr}
        if not els:
            continue
        unk = False
        pol = "loop"
        if lp.x["kind"] not in ("for", "rfor"):
            pol = algo_polarity(lp, pa.conds)
        if pol is None:
            unk = True
        bad = None
        for x in (0, 1, 2, 3):
            acc = False
            try:
                for q in lp.x["paths"]:
                    if pol == "loop" and q.end[0] not in ("normal", "continue"):
                        continue
                    env = lambda t: x if t in els else None
                    cs = [c for c in q.conds if contains(canon(c), lambda z: z in els)]
                    if all_true(cs, env) and (pol == "loop" or pol in ("unused", "some") or bool(ev(q.end[1], env)) == pol):
                        acc = True
            except Unknown:
                unk = True
            if acc != (x == 1) and not unk:
                bad = (x, acc)
        if unk:
            ctx.undecided("init-unique", key)
        elif bad:
            ctx.bad("init-unique" if bad[0] > 1 else "init-complete", key, lw(lp), "%s %s an element that is in %d of the sets" % (key, "accepts" if bad[1] else "refuses", bad[0]))
        else:
            ctx.ok("init-unique", key)
            ctx.ok("init-complete", key)
        return True
    ctx.bad("init-unique", key, where(f), "%s counts how often each element occurs but does not test it" % key)
    return True


def rest(ctx, key, f, pa, i, e, spec, data, p):
    """hidden part: the stored array holds every value of range(n) exactly once; the visible size is that of the given values"""
    pushes = []
    for lp in loops_before(pa, i):
        for q in lp.x["paths"]:
            for x in q.events:
                if x.k == "push" and q.end[0] in ("normal", "continue") and x.val is not None and contains(canon(x.val), lambda z: z == ("k", lp.x["id"])):
                    pushes.append((lp, q, x))
    if not pushes:
        if any(x.k == "algo" for x in pa.events[:i]) or data is None or any(lp.x["kind"] not in ("rfor", "find_if", "find_if_not", "all_of", "any_of", "none_of") for lp in loops_before(pa, i)):
            ctx.undecided("init-complete", key)
        else:
            ctx.bad("init-complete", key, where(f), "%s does not add the values that were not given" % key)
        return
    lp = pushes[0][0]
    k = ("k", lp.x["id"])
    flds = set()
    for q in lp.x["paths"]:
        for c in q.conds:
            flds |= fields_in(c)
    unk = False
    seen_bad = None
    envs = [en for en in spec.envs(flds) if ev(spec.hi, en) + 1 >= 0]
    if short(spec.cls).startswith("List"):
        # a list's sizes are those of its range
        pass
    for env in envs:
        n = int(ev(spec.hi, env)) + 1
        mnv, mxv = env.get(mem("min_size_")), env.get(mem("max_size_"))
        if any(v is not None and not 0 <= v <= n for v in (mnv, mxv)) or (mnv is not None and mxv is not None and mnv > mxv):
            continue
        if short(spec.cls).startswith("List") and mxv is not None and mxv != n:
            continue
        for given in ((False, True) if data is not None else (False,)):
            out = []
            asked = [None]
            try:
                for kv in range(0, 8):
                    def get(t, kv=kv, env=env):
                        if t == k:
                            return kv
                        if t[0] == "app" and t[1] in ("count", "contains") and len(t[3]) == 1:
                            asked[0] = t[3][0]
                            return given
                        if t[0] == "inserted" or t[0] == "app" and t[1] == "inserted":
                            return not given
                        return env.get(t)
                    live = False
                    for q in lp.x["paths"]:
                        if all_true(q.conds, get):
                            live = True
                            for x in q.events:
                                if x.k == "push":
                                    out.append(ev(x.val, get))
                                    if asked[0] is not None and ev(asked[0], get) != out[-1] and not seen_bad:
                                        ctx.bad("init-complete", key + " asks", lw(x), "%s adds %g to the hidden part depending on whether %g was given" % (key, out[-1], ev(asked[0], get)))
                                        return
                    if not live:
                        break
            except Unknown:
                unk = True
                continue
            want = [] if given else list(range(n))
            if sorted(out) != want:
                seen_bad = (env, given, out, n)
    if seen_bad:
        env, given, out, n = seen_bad
        ctx.bad("init-complete", key, lw(lp), "%s adds %s to the hidden part for range(%d) when %s values were given%s" % (key, [int(x) for x in out], n, "all" if given else "no", witness(env)))
    elif unk:
        ctx.undecided("init-complete", key)
    else:
        ctx.ok("init-complete", "%s: the stored array holds every value of the range once" % key)
    # visible size
    szs = [canon(t) for t in stored_fields(e)]
    szs = [t for t in szs if t[0] == "size" or t[0] in ("lin", "lit") or t[0] == "mem" and t[1] == THIS]
    if not szs:
        ctx.undecided("init-stored", key)
        return
    vis = szs[0]
    if data is None:
        mn, mx = mem("min_size_"), mem("max_size_")
        bad = None
        try:
            for a in range(0, 4):
                for b in range(a, 4):
                    if short(spec.cls).startswith("List") and a != b:
                        continue
                    v = ev(vis, {mn: a, mx: b, **{x: b for x in spec.atoms if x not in (mn, mx)}})
                    if not a <= v <= b:
                        bad = (a, b, v)
        except Unknown:
            ctx.undecided("init-default", key)
            return
        if bad:
            ctx.bad("init-default", key, lw(e), "the default state has %g elements, but %d to %d are allowed" % (bad[2], bad[0], bad[1]))
        else:
            ctx.ok("init-default", key)
        return
    if vis[0] == "size" and set_of(vis[1], data) or vis == ("size", data):
        ctx.ok("init-stored", key)
    elif contains(vis, lambda z: z[0] in ("hav", "havi", "tmp") if z else False):
        ctx.undecided("init-stored", key)
    else:
        ctx.bad("init-stored", key, lw(e), "%s makes %s elements visible" % (key, show(vis)))


# ------------------------------------------------------------------ disjoint sets and lists
def disjoint(ctx, p, cls, f, pa, st, data):
    lists = "List" in short(cls)
    key = "%s(%s)" % (short(cls), "data" if data else "default")
    i, e = st
    prim = mem("primary_set_size_")
    num_ = mem("num_disjoint_lists_" if lists else "num_disjoint_sets_")
    if data is None:
        default_partition(ctx, key, f, pa, i, e, prim, num_, lists)
        return
    if lists:
        inside = lambda x, env: abs(x) != math.inf and x == int(x) and 0 <= x < env[prim]
        envs = [{prim: v} for v in range(0, 4)]
    else:
        inside = lambda x, env: x in (0, 1)
        envs = [{prim: 3, num_: 2}]
    elements(ctx, key, f, pa, i, data, envs, inside, d=2)
    for d, n, what in ((1, num_, "lists" if lists else "sets"), (2, prim, "elements")):
        outer_cover(ctx, key, f, pa, i, data, d, {prim: 3, num_: 3, ("size", data): 3})
    sizes(ctx, key, f, pa, data, [{num_: v, prim: 3} for v in range(1, 5)], lambda n, env: n == env[num_], what="lists" if lists else "sets")
    if not lists:
        inner_size(ctx, key, f, pa, i, data, prim)
    unique(ctx, key, f, pa, i, data, d=2)
    if lists:
        partition(ctx, key, f, pa, i, data, prim)
        stored_as_is(ctx, key, f, pa, i, e, data)
    else:
        copied(ctx, key, f, pa, i, data, prim, num_, e)


def nested(lps):
    for lp in lps:
        yield lp
        for q in lp.x["paths"]:
            yield from nested([e for e in q.events if e.k == "loop" and not e.x.get("partial")])


def outer_cover(ctx, key, f, pa, i, data, d, env):
    done = set()
    for lp in nested(loops_before(pa, i)):
        if lp.x["id"] in done:
            continue
        done.add(lp.x["id"])
        k = ("k", lp.x["id"])
        els = [z for z in loop_elements(lp, data) if depth(z) == d and contains(z[2], lambda y: y == k)]
        if not els:
            continue
        if lp.x["kind"] == "rfor" and lp.x.get("range") is not None:
            r = canon(lp.x["range"])
            if r[0] in ("drop", "take"):
                ctx.bad("init-element", key + " coverage", lw(lp), "%s does not look at every element" % key)
                return
            ctx.ok("init-element", key + ": every element is looked at")
            continue
        e2 = dict(env)
        seen = set()
        try:
            for kv in range(5):
                e2[k] = kv

                def get(t):
                    if t[0] == "size" and base_of(t[1]) == data:
                        return 3
                    return e2.get(t)
                live = False
                for q in lp.x["paths"]:
                    cs = [c for c in q.conds if contains(canon(c), lambda z: z == k) and not contains(canon(c), lambda z: len(z) == 3 and base_of(z) == data) and not contains(canon(c), lambda z: z and z[0] == "size" and base_of(z[1]) == data and z[1] != data)]
                    live = live or all_true(cs, get)
                if not live:
                    break
                for z in els:
                    seen.add(ev(z[2], e2))
        except Unknown:
            ctx.undecided("init-element", key + ": coverage")
            continue
        if seen != {0, 1, 2} and not {0, 1, 2} <= seen:
            ctx.bad("init-element", key + " coverage", lw(lp), "%s does not look at every element" % key)
            return
        ctx.ok("init-element", key + ": every element is looked at")


def inner_size(ctx, key, f, pa, i, data, prim):
    for lp in loops_before(pa, i):
        for q in lp.x["paths"]:
            if q.end[0] not in ("normal", "continue"):
                continue
            cs = [c for c in q.conds if contains(canon(c), lambda z: z and z[0] == "size" and depth(z[1]) == 1 and base_of(z[1]) == data)]
            if not any(depth(z) == 1 for z in loop_elements(lp, data)):
                continue
            unk = False
            for a in range(0, 4):
                for n in range(0, 5):
                    def get(t, a=a, n=n):
                        if t[0] == "size" and base_of(t[1]) == data:
                            return n
                        return a if t == prim else None
                    try:
                        if all_true(cs, get) != (n == a):
                            ctx.bad("init-size", key + " inner", lw(lp), "%s %s a set given by %d flags for %d elements" % (key, "accepts" if n != a else "refuses", n, a))
                            return
                    except Unknown:
                        unk = True
            if unk:
                ctx.undecided("init-size", key + " inner")
            else:
                ctx.ok("init-size", key + " inner")
            return


def partition(ctx, key, f, pa, i, data, prim):
    """as many different elements as there are"""
    ins = inserts(loops_before(pa, i), data)
    if not ins:
        ctx.undecided("init-complete", key)
        return
    tgt = canon(ins[0][2].loc)
    cs = [c for c in pa.conds if prim in fields_in(c) and contains(canon(c), lambda z: z and z[0] == "size" and z[1] == tgt)]
    if not cs:
        if any(contains(canon(c), lambda z: z and z[0] in ("hav", "havi", "app", "opaque")) for c in pa.conds):
            ctx.undecided("init-complete", key)
        else:
            ctx.bad("init-complete", key, where(f), "%s accepts lists that leave out elements" % key)
        return
    try:
        for a in range(0, 4):
            for n in range(0, a + 1):
                acc = all_true(cs, lambda t: n if t[0] == "size" and t[1] == tgt else a if t == prim else None)
                if acc != (n == a):
                    ctx.bad("init-complete", key, where(f), "%s %s lists holding %d of %d elements" % (key, "accepts" if acc else "refuses", n, a))
                    return
        ctx.ok("init-complete", key)
    except Unknown:
        ctx.undecided("init-complete", key)


def copied(ctx, key, f, pa, i, data, prim, num_, e):
    """flag (s, x) is stored at s * primary + x"""
    done = False
    for lp in nested(loops_before(pa, i)):
        for q in lp.x["paths"]:
            for x in q.events:
                if x.k == "w" and x.loc[0] == "idx" and x.val is not None and depth(canon(x.val)) == 2 and base_of(canon(x.val)) == data and x.loc[1][0] == "mem":
                    v = canon(x.val)
                    try:
                        for s in range(3):
                            for y in range(3):
                                pos = ev(x.loc[2], {v[1][2]: s, v[2]: y, prim: 3, num_: 4})
                                if pos != s * 3 + y:
                                    ctx.bad("init-stored", key, lw(x), "%s stores flag %d of set %d at position %d" % (key, y, s, pos))
                                    return
                        if q.end[0] in ("normal", "continue"):
                            done = True
                    except Unknown:
                        ctx.undecided("init-stored", key)
                        return
    if done:
        ctx.ok("init-stored", key)
    else:
        ctx.undecided("init-stored", key)


def default_partition(ctx, key, f, pa, i, e, prim, num_, lists):
    """each element once"""
    ws = []
    for lp in loops_before(pa, i):
        k = ("k", lp.x["id"])
        for q in lp.x["paths"]:
            for x in q.events:
                if x.k == "push" and lists and contains(canon(x.val), lambda z: z == k) or x.k == "w" and not lists and x.loc[0] == "idx" and x.val == ("lit", 1):
                    ws.append((lp, q, x, k))
    if not ws:
        ctx.undecided("init-default", key)
        return
    lp, q, x, k = ws[0]
    try:
        for n in range(0, 4):
            got = []
            for kv in range(0, 6):
                if not all_true(q.conds, {k: kv, prim: n, num_: 2}):
                    break
                got.append(ev(x.val if lists else x.loc[2], {k: kv, prim: n, num_: 2}))
            if lists and got != list(range(n)) or not lists and (len(set(got)) != len(got) or sorted(g % n for g in got if n) != list(range(n))):
                ctx.bad("init-default", key, lw(lp), "with %d elements the default state holds %s" % (n, [int(g) for g in got]))
                return
        ctx.ok("init-default", key)
    except Unknown:
        ctx.undecided("init-default", key)


# ------------------------------------------------------------------ declaring a decision
def rule_declared(ctx):
    """a decision can be declared exactly if its domain is not contradictory"""
    p = program()
    ctx.rule("declared", "a decision is accepted exactly if its bounds, or its sizes, admit a state", 2)
    set_root(None)
    for cls in concrete_nodes(p):
        if not p.is_a(cls, NS + "DecisionNode"):
            continue
        s = short(cls)
        for f in p.methods_of(cls):
            if not f.get("isctor") or f.get("body") is None or not f["params"] or any(s + " " in q["t"] or q["t"].endswith(s + "&") or q["t"].endswith(s + "&&") for q in f["params"]):
                continue
            what = "%s(%s)" % (s, ", ".join(q["n"] or "?" for q in f["params"]))
            with ctx.guard("declared", what):
                declared(ctx, p, cls, f, what)


def members_of(pa):
    got = {}
    for e in pa.events:
        if e.k in ("w", "init") and e.loc is not None and e.loc[0] == "mem" and e.loc[1] == THIS and e.val is not None:
            got[canon(e.loc)] = canon(e.val)
    return got


def leaves(t):
    """unknowns of a term: parameters and optional parameters with their defaults"""
    out = set()

    def walk(z):
        z = canon(z)
        if z[0] == "app" and z[1] in ("value_or", "value"):
            out.add(z)
            return
        if z[0] in ("param", "var", "tmp", "hav", "havi", "opaque"):
            out.add(z)
            return
        if z[0] == "app":
            out.add(z)
            return
        for x in z[1:]:
            stack(x)

    def stack(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                walk(x)
            else:
                for y in x:
                    stack(y)
    walk(t)
    return out


def declared(ctx, p, cls, f, what):
    pas = paths_of(p, f, cls) or []
    ok = [pa for pa in pas if not pa.throws]
    if not ok:
        ctx.undecided("declared", what)
        return
    if p.is_a(cls, NS + "NumberNode"):
        names = ("lower_bound_", "upper_bound_")
        sound = lambda lo, hi: lo <= hi
        say = "the bounds %g and %g"
    elif p.is_a(cls, NS + "CollectionNode"):
        names = ("max_value_", "min_size_", "max_size_")
        sound = lambda n, a, b: 0 <= a <= b <= n
        say = "values below %g and sizes from %g to %g"
    elif short(cls).startswith("Disjoint"):
        names = ("primary_set_size_", "num_disjoint_lists_" if "List" in short(cls) else "num_disjoint_sets_")
        sound = None
        say = "%g elements in %g parts"
    else:
        ctx.undecided("declared", what)
        return
    vals = []
    for pa in pas:
        got = members_of(pa)
        t = [got.get(mem(n)) for n in names]
        if any(x is None for x in t):
            if pa.throws:
                continue
            ctx.undecided("declared", what)
            return
        vals.append((pa, t))
    ls = set()
    for pa, t in vals:
        for x in t:
            ls |= leaves(x)
    if any(z[0] in ("hav", "havi", "opaque", "tmp") for z in ls) or len(ls) > 4:
        ctx.undecided("declared", what)
        return
    ls = sorted(ls, key=repr)
    unk = False
    n = 0
    for env in grid({z: list(range(-2, 5)) for z in ls}):
        acc = None
        for pa, t in vals:
            if pa.throws:
                continue
            cs = [c for c in pa.conds if leaves(c) and leaves(c) <= set(ls)]
            try:
                e2 = dict(env)
                tv = [ev(x, e2) for x in t]
                for nm, v in zip(names, tv):
                    e2[mem(nm)] = v
                if all_true(cs + [c for c in pa.conds if not leaves(c) and fields_in(c) and set(fields_in(c)) <= {mem(x) for x in names}], e2):
                    acc = tv
                    break
            except Unknown:
                unk = True
        if unk:
            continue
        n += 1
        try:
            want = [ev(x, dict(env)) for x in vals[0][1]]
        except Unknown:
            unk = True
            continue
        good = sound(*want) if sound else None
        if sound is None:
            # no elements can be negative and at least one part must exist to hold them
            if acc is not None and (acc[0] < 0 or acc[1] < 0):
                ctx.bad("declared", what, where(f), "%s accepts %s" % (what, say % tuple(acc)))
                return
            if acc is None and want[0] >= 0 and want[1] >= 1:
                ctx.bad("declared", what + " refuses", where(f), "%s refuses %s" % (what, say % tuple(want)))
                return
            continue
        if acc is not None and not sound(*acc):
            ctx.bad("declared", what, where(f), "%s accepts %s" % (what, say % tuple(acc)))
            return
        if acc is None and good:
            ctx.bad("declared", what + " refuses", where(f), "%s refuses %s" % (what, say % tuple(want)))
            return
    ctx.count("declarations evaluated", n)
    if unk:
        ctx.undecided("declared", what)
    else:
        ctx.ok("declared", "%s: %d declarations" % (what, n))

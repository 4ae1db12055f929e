"""Rules over the Python and Cython layer."""
from . import pyx
from .facts import AnalysisBroken
from .pyx import PyWalker, Capped, flat, sub, has, ren, neg, fname

SYM, MOD, STA, MATH, GEN, MPY = "symbols.pyx", "_model.pyx", "states.pyx", "mathematical.py", "generators.py", "model.py"
PTRS = ("array_ptr", "node_ptr", "ptr")


# --------------------------------------------------------------------------- helpers
class Layer:
    """functions, classes and the resolver of calls between them"""

    def __init__(self, names=(SYM, MOD, STA, MPY, MATH, GEN)):
        self.mods = {n: pyx.module(n) for n in names}
        self.classes = {}
        for n, m in self.mods.items():
            for c, d in m.classes.items():
                self.classes[c] = (n, d)

    def bases(self, c):
        d = self.classes.get(c)
        return [b[1] if b[0] == "n" else b[2] if b[0] == "attr" else "?" for b in d[1].get("bases", [])] if d else []

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo.extend(self.bases(x))
        return out

    def method(self, c, m):
        for x in self.mro(c):
            if x in self.classes and m in self.classes[x][1]["methods"]:
                return x, self.classes[x][1]["methods"][m]
        return None, None

    def functions(self, mods=None):
        """(module, class or None, name, function)"""
        for n, m in self.mods.items():
            if mods and n not in mods:
                continue
            for name, f in m.funcs.items():
                yield n, None, name, f
            for c, d in m.classes.items():
                for name, f in d["methods"].items():
                    yield n, c, name, f

    def resolver(self, mod, cls=None, skip=()):
        """expands functions of the same module, and private/static methods of the own class"""
        m = self.mods[mod]

        def r(f, args, kw, st):
            if f[0] == "n" and f[1] in m.funcs and f[1] not in skip:
                return m.funcs[f[1]], None
            if f[0] == "attr" and f[2] not in skip and not f[2].startswith("__"):
                if f[1] == ("param", "self") and cls:
                    c, g = self.method(cls, f[2])
                    if g is not None and c == cls and f[2].startswith("_"):
                        return g, ("param", "self")
                if f[1][0] == "n" and f[1][1] in m.classes and f[2] in m.classes[f[1][1]]["methods"]:
                    g = m.classes[f[1][1]]["methods"][f[2]]
                    if "staticmethod" in decos(g) and f[2] not in ("_from_symbol", "from_ptr"):
                        return g, None
            return None
        return r


def decos(g):
    return [d[1] if d[0] == "n" else d[2] if d[0] == "attr" else "" for d in g.get("dec", [])]


def uncast(t):
    while t[0] == "cast":
        t = t[2]
    return t


def strip(t):
    """without casts, at any depth"""
    t = uncast(t)
    return tuple(strip(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in pyx.KINDS else tuple(strip(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in pyx.KINDS else y for y in x) if isinstance(x, tuple) else x for x in t)


def star(t):
    """loop elements without the identity of the loop"""
    if t[0] == "elem":
        return ("elem", star(t[1]), "*")
    return tuple(star(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(star(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in t)


def subst(t, a, b):
    if t == a:
        return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def members(t):
    """conditions implied by a (possibly compound) true condition"""
    if t[0] == "and":
        return members(t[1]) + members(t[2])
    if t[0] == "not" and t[1][0] == "or":
        return members(pyx.neg(t[1][1])) + members(pyx.neg(t[1][2]))
    if t[0] == "call" and t[1] == ("n", "all") and t[2] and t[2][0][0] == "comp" and not any(g[2] for g in t[2][0][3]):
        return [star(c) for c in members(t[2][0][2])]
    if t[0] == "not" and t[1][0] == "call" and t[1][1] == ("n", "any") and t[1][2] and t[1][2][0][0] == "comp" and not any(g[2] for g in t[1][2][0][3]):
        return [star(c) for c in members(pyx.neg(t[1][2][0][2]))]
    return [t]


def facts_of(path, upto=None):
    """conditions that hold on the path, including what completed loops establish for every element"""
    out = []
    for c in path.conds:
        out += members(strip(c))
    for e in path.events if upto is None else path.events[:upto]:
        if e["k"] == "loop" and e["it"] is not None and not any(q.end[0] == "break" for q in e["paths"]):
            ends = [q for q in e["paths"] if q.end[0] in ("normal", "continue")]
            if ends:
                fs = list(set.intersection(*[set(star(c) for c in facts_of(q)) for q in ends]))
                out += fs
                it = uncast(e["it"])
                if it[0] in ("tuple", "list") and not any(z[0] == "star" for z in it[1]):
                    for z in it[1]:
                        out += [subst(c, ("elem", star(e["it"]), "*"), strip(z)) for c in fs]
    return out


class Eq:
    """equality classes of terms"""

    def __init__(self, facts):
        self.p = {}
        for c in facts:
            if c[0] == "cmp" and c[1] in ("is", "=="):
                self.join(c[2], c[3])
                a, b = star(c[2]), star(c[3])
                self.join(a, b)

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            x = self.p[x]
        return x

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)

    def same(self, a, b):
        return self.find(a) == self.find(b)


def elems_of(t):
    """other names of an element of a collection: x[0] is an element of x"""
    if t[0] == "sub" and t[2][0] == "const":
        return [("elem", t[1], "*")]
    if t[0] == "elem":
        return [star(t)]
    return []


def run_paths(ctx, rule, what, w, f, **kw):
    try:
        return w.run(f, **kw)
    except Capped:
        ctx.undecided(rule, "%s: too many paths" % what)
        return None


# --------------------------------------------------------------------------- P17: one model
def is_emplace(f):
    return f[0] == "sub" and f[1][0] == "attr" and f[1][2] == "emplace_node"


def owner_model(f):
    """the term of the model in M._graph.emplace_node[...]"""
    g = uncast(f[1][1])
    if g[0] == "attr" and g[2] == "_graph":
        return strip(g[1])
    return None


def operand_owners(t):
    """the symbols whose node pointer occurs in a term"""
    out = []
    for x in sub(t):
        if x[0] == "attr" and x[2] in PTRS and x[1] != ("param", "self"):
            out.append(strip(x[1]))
    return out


def appended(path, vec, upto):
    """terms appended to a C++ vector before event `upto`: (term, [(loop, path)...])"""
    for e, c in flat(path.events[:upto]):
        if e["k"] == "call" and e["f"][0] == "attr" and e["f"][1] == vec and e["f"][2] in ("push_back", "emplace_back", "insert", "append"):
            for a in e["args"]:
                yield a, c
        if e["k"] == "store" and e["t"][0] == "sub" and e["t"][1] == vec:
            yield e["v"], c


def model_of(x):
    return ("attr", x, "model")


def rule_one_model(ctx):
    """P17"""
    ctx.rule("operand-model", "the model of every operand of a new symbol is the model the symbol is added to (same term, or compared on the path before)", 30)
    ctx.rule("result-model", "the new symbol is bound to the model its node was added to", 30)
    ctx.rule("role-model", "a symbol becomes objective or constraint only of its own model", 2)
    ctx.rule("refuse-first", "no explicit refusal after the model has been changed", 30)
    L = Layer()
    done = set()
    for mod, cls, name, f in L.functions((SYM, MOD, MPY, MATH)):
        if not any(has(x, lambda z: z[0] == "attr" and z[2] in ("emplace_node", "set_objective", "add_constraint", "add_node")) for x in pyx.exprs(f["body"])):
            continue
        what = "%s%s" % (cls + "." if cls else "", name)
        with ctx.guard("operand-model", what):
            one_model_function(ctx, L, mod, cls, name, f, what)
        done.add(what)
    ctx.count("constructing functions", len(done))
    # helpers that emplace for others are covered by expansion; anything else that takes a node pointer of another object
    for mod, cls, name, f in L.functions((SYM, MOD)):
        what = "%s%s" % (cls + "." if cls else "", name)
        if what in done:
            continue
        for x in pyx.exprs(f["body"]):
            for c in sub(x):
                if c[0] == "call" and c[1][0] == "attr" and c[1][2] in ("initialize_arraynode", "initialize_node") and len(c[2]) == 2:
                    ctx.count("bindings", 1)


def one_model_function(ctx, L, mod, cls, name, f, what):
    w = PyWalker(L.resolver(mod, cls))
    ps = run_paths(ctx, "operand-model", what, w, f)
    if ps is None:
        return
    ctx.count("paths", len(ps))
    inplace = name.startswith("__i") and name.endswith("__")
    for p in ps:
        for i, e in enumerate(p.events):
            if e["k"] == "loop":
                for e2, c in flat([e]):
                    if e2["k"] == "call" and is_emplace(e2["f"]):
                        ctx.undecided("operand-model", "%s adds symbols in a loop" % what)
                continue
            if e["k"] != "call":
                continue
            if is_emplace(e["f"]):
                check_emplace(ctx, what, cls, p, i, e)
            elif e["f"][0] == "attr" and e["f"][2] in ("set_objective", "add_constraint") and e["args"] and has(e["f"][1], lambda z: z[0] == "attr" and z[2] == "_graph"):
                g = uncast(e["f"][1])
                m = strip(g[1]) if g[0] == "attr" and g[2] == "_graph" else None
                check_operands(ctx, "role-model", what, p, i, e, m, e["args"])
            elif e["f"][0] == "attr" and e["f"][2] == "add_node" and e["args"]:
                # a further operand for an existing symbol
                o = uncast(e["f"][1])
                m = model_of(strip(o[1])) if o[0] == "attr" and o[2] in PTRS else None
                check_operands(ctx, "operand-model", what, p, i, e, m, e["args"])


def check_operands(ctx, rule, what, p, i, e, m, args):
    if m is None:
        ctx.undecided(rule, "%s at %s: the model is not recognised" % (what, e["l"]))
        return
    items = []       # (owner symbol, extra facts)
    unclear = False
    for a in args:
        for o in operand_owners(a):
            items.append((o, []))
        for v in sub(a):
            if v[0] == "new":
                for t, c in appended(p, v, i):
                    ex = []
                    for lp, q in c:
                        ex += [x for k in q.conds for x in members(strip(k))]
                    for o in operand_owners(t):
                        items.append((o, ex))
    for o, ex in items:
        fs = facts_of(p, i) + ex
        # what later loops compare is no protection, but path conditions are all known before the end of the path;
        # a check after the change shows up as refuse-first
        eq = Eq(fs)
        names = [model_of(o)] + [model_of(z) for z in elems_of(o)]
        ms = [m] + ([model_of(z) for x in [m] if x[0] == "attr" and x[2] == "model" for z in elems_of(x[1])])
        if any(eq.same(n, x) for n in names for x in ms) and not (m[0] == "unk"):
            # equal through "every element equals M" needs that M itself is a fixed term
            if all(not (n[0] == "attr" and n[1][0] == "elem" and n == x) for n in names for x in ms if eq.same(n, x)) or any(eq.same(n, m) for n in names):
                ctx.ok(rule, "%s: %s belongs to %s" % (what, ren(o), ren(m)))
                continue
        mentioned = any(has(c, lambda z: z[0] == "attr" and z[2] == "model" and (strip(z[1]) == o or star(strip(z[1])) in elems_of(o))) for c in p.conds + ex + fs)
        odd = any(z[0] in ("unk", "?", "ctx", "closure") for z in sub(o)) or any(z[0] in ("unk", "?") for z in sub(m))
        passed = any(x["k"] == "call" and not is_emplace(x["f"]) and any(strip(y) == o or star(strip(y)) in elems_of(o) for a in x["args"] for y in sub(a)) and checker_like(x["f"])
                     for x, c in flat(p.events[:i]))
        if odd or passed or (mentioned and not opposite(fs, o, m)):
            ctx.undecided(rule, "%s: whether %s belongs to %s" % (what, ren(o), ren(m)))
        else:
            ctx.bad(rule, "%s|%s" % (what, ren(star(o))), e["l"], "%s uses the symbol %s in %s without having established that it belongs to that model" % (what, ren(o), ren(m)))
    if not items:
        ctx.ok(rule, "%s: no operand" % what)


def opposite(facts, o, m):
    return any(c[0] == "cmp" and c[1] in ("is not", "!=") and (model_of(o) in (c[2], c[3])) for c in facts)


def checker_like(f):
    n = fname(f).lower()
    return any(k in n for k in ("check", "valid", "same", "model", "assert", "verify"))


def check_emplace(ctx, what, cls, p, i, e):
    m = owner_model(e["f"])
    check_operands(ctx, "operand-model", what, p, i, e, m, e["args"])
    # refusal after the change
    if p.raises and p.end[1] != ("exc",):
        ctx.bad("refuse-first", what, p.end[2], "%s refuses its arguments after the symbol has been added to the model" % what)
        return
    ctx.ok("refuse-first", what)
    if p.raises:
        return
    # binding
    binds = [(x, c) for x, c in flat(p.events) if x["k"] == "call" and fname(x["f"]) in ("initialize_arraynode", "initialize_node")]
    if not binds:
        # a function that returns the raw pointer is a helper: its caller is looked at
        if cls is None or p.end[1] == e["t"]:
            ctx.undecided("result-model", "%s returns the node unbound" % what)
        else:
            ctx.bad("result-model", what + "|unbound", e["l"], "%s adds a node to the model but does not bind itself to it on every path" % what)
        return
    for b, c in binds:
        if len(b["args"]) != 2 or m is None:
            ctx.undecided("result-model", "%s: binding not recognised" % what)
            continue
        bm = strip(b["args"][0])
        eq = Eq(facts_of(p))
        if eq.same(bm, m):
            ctx.ok("result-model", "%s bound to %s" % (what, ren(m)))
        elif any(z[0] in ("unk", "?") for z in sub(bm)) or any(z[0] in ("unk", "?") for z in sub(m)):
            ctx.undecided("result-model", "%s: bound to %s" % (what, ren(bm)))
        else:
            ctx.bad("result-model", what, b["l"], "%s adds its node to %s but is bound to %s" % (what, ren(m), ren(bm)))


# --------------------------------------------------------------------------- P14: locks
class Unknown(Exception):
    pass


def ev(t, val):
    """value of a term under a valuation (a function from terms to values or None)"""
    v = val(t)
    if v is not None:
        return v
    k = t[0]
    if k == "const":
        return t[1]
    if k == "cast":
        return ev(t[2], val)
    if k == "not":
        return not ev(t[1], val)
    if k == "and":
        return ev(t[1], val) and ev(t[2], val)
    if k == "or":
        return ev(t[1], val) or ev(t[2], val)
    if k == "ifexp":
        return ev(t[2] if ev(t[1], val) else t[3], val)
    if k == "bin":
        a, b = ev(t[2], val), ev(t[3], val)
        if t[1] in ("+", "-", "*") and all(isinstance(x, (int, float)) for x in (a, b)):
            return {"+": a + b, "-": a - b, "*": a * b}[t[1]]
    if k == "un" and t[1] == "-":
        return -ev(t[2], val)
    if k == "call" and t[1] in (("n", "max"), ("n", "min")) and len(t[2]) > 1:
        return (max if t[1][1] == "max" else min)(*[ev(x, val) for x in t[2]])
    if k == "call" and t[1] in (("n", "bool"), ("n", "int")) and len(t[2]) == 1:
        return {"bool": bool, "int": int}[t[1][1]](ev(t[2][0], val))
    if k == "cmp":
        a, b = ev(t[2], val), ev(t[3], val)
        ops = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
               "is": lambda: a is b, "is not": lambda: a is not b}
        if t[1] in ops:
            try:
                return ops[t[1]]()
            except TypeError:
                pass
    raise Unknown()


def feasible(conds, val):
    """False if some condition is false under the valuation"""
    for c in conds:
        try:
            if c[0] in pyx.KINDS and not ev(c, val):
                return False
        except Unknown:
            pass
    return True


class LockModel:
    """how the lock count is kept"""

    def __init__(self, L):
        self.L = L
        c, f = L.method("_Graph", "is_locked")
        if f is None:
            raise AnalysisBroken("no is_locked() on the graph")
        self.locked_fn = f
        ps = PyWalker(lambda *a: None).run(f)
        at = {x for p in ps for t in [p.end[1]] + p.conds for x in sub(t) if x[0] == "attr" and x[1] == ("param", "self")}
        if len(at) != 1:
            raise AnalysisBroken("the lock count is not recognised in is_locked()")
        self.C = at.pop()
        self.ps = ps

    def locked(self, c):
        val = lambda t: c if t == self.C else None
        for p in self.ps:
            if feasible(p.conds, val):
                return bool(ev(p.end[1], val))

    def resolver(self, cls):
        L = self.L

        def r(f, args, kw, st):
            if f[0] != "attr":
                return None
            if f[1][0] == "call" and f[1][1] == ("n", "super"):
                for c in L.mro(cls)[1:]:
                    if c in L.classes and f[2] in L.classes[c][1]["methods"]:
                        return L.classes[c][1]["methods"][f[2]], ("param", "self")
            if f[1] == ("param", "self"):
                c, g = L.method(cls, f[2])
                if g is not None and (f[2] in ("lock", "unlock", "is_locked") or f[2].startswith("_") and not f[2].startswith("__")):
                    return g, ("param", "self")
            return None
        return r

    def val(self, c, extra=None):
        lk = self.locked(c)

        def v(t):
            if t == self.C:
                return c
            if t[0] == "call" and fname(t[1]) == "is_locked" and not t[2]:
                return lk
            return extra(t) if extra else None
        return v


def rule_lock(ctx):
    """P14"""
    ctx.rule("is-locked", "a model is locked exactly if its lock count is positive; the count starts at zero", 2)
    ctx.rule("lock", "locking sorts the symbols and adds exactly one to the count, on every path", 4)
    ctx.rule("unlock", "unlocking takes exactly one from a positive count and gives up the order exactly when the count reaches zero", 6)
    ctx.rule("values", "when the last lock is released, values that depend on the order are discarded", 1)
    ctx.rule("release", "a locked block releases its lock exactly once on every way out", 2)
    ctx.rule("frozen", "a locked model's symbols are not added to, linked or removed", 3)
    ctx.rule("count-writers", "nothing else changes the lock count or the order", 3)
    L = Layer()
    K = LockModel(L)
    for c in range(4):
        lk = K.locked(c)
        if lk is None:
            ctx.undecided("is-locked", "count %d" % c)
        elif lk == (c > 0):
            ctx.ok("is-locked", "count %d: locked is %s" % (c, lk))
        else:
            ctx.bad("is-locked", "count %d" % c, K.locked_fn["l"], "a model with %d locks reports is_locked() = %s" % (c, lk))
    inits = 0
    for cls in L.mro("Model"):
        for name in ("__cinit__", "__init__"):
            f = L.classes[cls][1]["methods"].get(name) if cls in L.classes else None
            if f is None:
                continue
            for p in PyWalker(lambda *a: None).run(f):
                v = p.attrs.get(K.C)
                if v is not None:
                    inits += 1
                    (ctx.ok("is-locked", "starts at %s" % ren(v)) if v == ("const", 0) else
                     ctx.undecided("is-locked", "initial count") if v[0] != "const" else
                     ctx.bad("is-locked", "initial", f["l"], "a new model starts with lock count %s" % ren(v)))
    if not inits:
        ctx.undecided("is-locked", "initial count")
    for cls in L.mro("Model"):
        if cls not in L.classes:
            continue
        ms = L.classes[cls][1]["methods"]
        for name, fn in (("lock", lock_paths), ("unlock", unlock_paths)):
            if name in ms:
                with ctx.guard(name, "%s.%s" % (cls, name)):
                    fn(ctx, L, K, cls, ms[name])
    # context managers
    n = 0
    for mod, cls, name, f in L.functions((MPY, MOD)):
        if "contextmanager" in decos(f) and any(has(x, lambda z: z[0] == "call" and fname(z[1]) == "unlock") for x in pyx.exprs(f["body"])):
            n += 1
            release_paths(ctx, name, f)
        if name == "__exit__" and any(has(x, lambda z: z[0] == "call" and fname(z[1]) == "unlock") for x in pyx.exprs(f["body"])):
            n += 1
            for p in PyWalker(lambda *a: None).run(f):
                k = sum(1 for e, c in flat(p.events) if e["k"] == "call" and fname(e["f"]) == "unlock")
                (ctx.ok("release", "%s.__exit__" % cls) if k == 1 else ctx.bad("release", "%s.__exit__" % cls, f["l"], "the context manager releases the lock %d times on a path" % k))
    if not n:
        ctx.undecided("release", "no context manager that unlocks was recognised")
        ctx.undecided("release", "no context manager that unlocks was recognised")
    # users of lock() outside with
    for mod, cls, name, f in L.functions((SYM, MOD, STA, MPY, MATH)):
        if name in ("lock", "unlock", "__exit__", "__enter__") or "contextmanager" in decos(f):
            continue
        what = "%s%s" % (cls + "." if cls else "", name)
        if any(has(x, lambda z: z[0] == "call" and z[1][0] == "attr" and z[1][2] == "lock") for x in pyx.exprs(f["body"])):
            with ctx.guard("release", what):
                balanced(ctx, what, f)
    # mutators
    for mod, cls, name, f in L.functions((SYM, MOD, STA, MPY)):
        what = "%s%s" % (cls + "." if cls else "", name)
        names = {fname(c[1]) for x in pyx.exprs(f["body"]) for c in sub(x) if c[0] == "call"}
        if names & {"remove_unused_nodes", "add_node"}:
            with ctx.guard("frozen", what):
                frozen(ctx, L, K, cls, what, f)
        if name not in ("unlock",) and "reset_topological_sort" in names:
            ctx.bad("count-writers", what, f["l"], "%s gives up the order of the symbols outside unlock()" % what) if not name.startswith("_") else ctx.undecided("count-writers", what)
        wr = [s for s in pyx.stmts_in(f["body"]) if s["k"] in ("assign", "aug") and any(t[0] == "attr" and t[2] == K.C[2] for t in (s["t"] if s["k"] == "assign" else [s["t"]]))]
        if wr:
            if name in ("lock", "unlock", "__cinit__", "__init__") or name.startswith("_"):
                ctx.ok("count-writers", what)
            else:
                ctx.bad("count-writers", what + "|count", wr[0]["l"], "%s changes the lock count" % what)


def count_after(p, K, c):
    t = p.attrs.get(K.C, K.C)
    return ev(t, lambda x: c if x == K.C else None)


def called(p, name):
    return [e for e, c in flat(p.events) if e["k"] == "call" and fname(e["f"]) == name]


def lock_paths(ctx, L, K, cls, f):
    ps = PyWalker(K.resolver(cls)).run(f)
    for c in (0, 1, 2):
        for p in ps:
            if p.raises or not feasible(p.conds, K.val(c)):
                continue
            what = "%s.lock with %d locks held" % (cls, c)
            try:
                n = count_after(p, K, c)
            except Unknown:
                ctx.undecided("lock", what)
                continue
            if n != c + 1:
                ctx.bad("lock", "%s|count|%d" % (cls, c), f["l"], "%s.lock() makes the lock count %d from %d" % (cls, n, c))
            elif not called(p, "topological_sort") and c == 0:
                ctx.bad("lock", "%s|sort" % cls, f["l"], "%s.lock() does not sort the symbols on a path" % cls)
            else:
                ctx.ok("lock", what)


def unlock_paths(ctx, L, K, cls, f):
    ps = PyWalker(K.resolver(cls)).run(f)
    model = cls == "Model" or "Model" in L.mro(cls)
    for c in (0, 1, 2, 3):
        for p in ps:
            if p.raises or not feasible(p.conds, K.val(c)):
                continue
            what = "%s.unlock with %d locks held" % (cls, c)
            try:
                n = count_after(p, K, c)
            except Unknown:
                ctx.undecided("unlock", what)
                continue
            r = called(p, "reset_topological_sort")
            if n != max(c - 1, 0):
                ctx.bad("unlock", "%s|count|%d" % (cls, c), f["l"], "%s.unlock() makes the lock count %d from %d" % (cls, n, c))
            elif c == 1 and not r:
                ctx.bad("unlock", "%s|order" % cls, f["l"], "%s.unlock() of the last lock keeps the order of the symbols, so the model stays closed" % cls)
            elif c > 1 and r:
                ctx.bad("unlock", "%s|early" % cls, f["l"], "%s.unlock() gives up the order of the symbols while %d locks are still held" % (cls, c - 1))
            else:
                ctx.ok("unlock", what)
            if model and c == 1:
                v = called(p, "_reset_intermediate_states")
                odd = any(x["k"] == "call" and fname(x["f"]) not in pyx.QUIET | {"reset_topological_sort", "super"} and x["f"][0] == "attr" and x["f"][1] != ("param", "self") and "reset" in fname(x["f"]) + "clear"
                          for x, _ in flat(p.events))
                if v:
                    ctx.ok("values", what)
                elif odd:
                    ctx.undecided("values", what)
                else:
                    ctx.bad("values", cls, f["l"], "%s.unlock() of the last lock keeps values that belong to the released order" % cls)


def release_paths(ctx, name, f):
    ps = PyWalker(lambda *a: None).run(f)
    exc = [p for p in ps if any(e["k"] == "except" for e in p.events)]
    for p in ps:
        if not any(e["k"] in ("yield", "except") for e in p.events) and p.raises:
            continue
        n = len(called(p, "unlock"))
        w = "an error" if p in exc else "the end of the block"
        if n == 1:
            ctx.ok("release", "%s: on %s" % (name, w))
        else:
            ctx.bad("release", "%s|%s" % (name, w), f["l"], "%s releases the lock %d times on %s" % (name, n, w))
    if not exc:
        ctx.bad("release", "%s|an error" % name, f["l"], "%s does not release the lock when the block ends with an error" % name)


def balanced(ctx, what, f):
    for p in PyWalker(lambda *a: None).run(f):
        held = 0
        ents = [e["v"] for e, _ in flat(p.events) if e["k"] == "enter"]
        lock_calls = [e for e, _ in flat(p.events) if e["k"] == "call" and e["f"][0] == "attr" and e["f"][2] == "lock"]
        bare = [e for e in lock_calls if e["t"] not in ents and p.end[1:2] != (e["t"],)]
        un = called(p, "unlock")
        if len(bare) == len(un):
            ctx.ok("release", what)
        elif len(bare) > len(un):
            ctx.bad("release", what, bare[0]["l"], "%s takes a lock that it does not release on every path" % what)
        else:
            ctx.undecided("release", what)


def frozen(ctx, L, K, cls, what, f):
    ps = PyWalker(K.resolver(cls)).run(f)
    for p in ps:
        muts = [e for e, _ in flat(p.events) if e["k"] == "call" and fname(e["f"]) in ("remove_unused_nodes", "add_node")]
        if not muts:
            continue
        if feasible(p.conds, K.val(1)):
            odd = [c for c in p.conds if c[0] in pyx.KINDS and has(c, lambda z: z[0] == "call" and "lock" in fname(z[1]) and fname(z[1]) != "is_locked")]
            helper = [e for e, _ in flat(p.events) if e["k"] == "call" and any(k in fname(e["f"]) for k in ("lock", "check", "valid")) and fname(e["f"]) != "is_locked"]
            if odd or helper:
                ctx.undecided("frozen", what)
            else:
                ctx.bad("frozen", what, muts[0]["l"], "%s reaches %s() although the model may be locked" % (what, fname(muts[0]["f"])))
        else:
            ctx.ok("frozen", "%s: %s() only when unlocked" % (what, fname(muts[0]["f"])))


def rule_lock_states(ctx):
    """P14: what unlocking discards"""
    ctx.rule("discard", "discarding covers every state and leaves exactly the decisions' values", 1)
    L = Layer()
    cls, f = L.method("States", "_reset_intermediate_states")
    if f is None:
        ctx.undecided("discard", "no _reset_intermediate_states")
        return
    with ctx.guard("discard", "_reset_intermediate_states"):
        ok = False
        for p in PyWalker(L.resolver(STA, "States", skip=("size", "resolve", "_model"))).run(f):
            if p.raises:
                continue
            for e in p.events:
                if e["k"] != "loop":
                    continue
                for q in e["paths"]:
                    rs = [x for x, _ in flat(q.events) if x["k"] == "call" and fname(x["f"]) == "resize" and len(x["args"]) == 1]
                    for x in rs:
                        a = uncast(x["args"][0])
                        if a[0] == "call" and fname(a[1]) == "num_decisions":
                            ok = True
                        elif has(a, lambda z: z[0] == "call" and fname(z[1]) in ("num_nodes", "num_decisions", "num_constraints")):
                            ctx.bad("discard", "length", x["l"], "the states are cut to %s values instead of one per decision" % ren(a))
                            return
                    if not rs and q.end[0] in ("normal", "continue", "break") and not any(c[0] in pyx.KINDS and has(c, lambda z: z[0] == "call" and fname(z[1]) in ("size", "num_decisions")) for c in q.conds):
                        ctx.bad("discard", "skip", e["l"], "some states keep values that depend on the released order (when %s)" % " and ".join(ren(c) for c in q.conds if c[0] in pyx.KINDS))
                        return
                    if q.end[0] == "break":
                        ctx.bad("discard", "break", e["l"], "the states after the first are not covered")
                        return
                it = e["it"]
                if it is not None and it[0] == "call" and fname(it[1]) == "range":
                    lo = it[2][0] if len(it[2]) > 1 else ("const", 0)
                    hi = it[2][-1] if len(it[2]) < 3 else None
                    if lo != ("const", 0) and lo[0] == "const" or hi is not None and hi[0] == "bin" and hi[3][0] == "const" and hi[1] == "-":
                        ctx.bad("discard", "range", e["l"], "only states %s are covered" % ren(it))
                        return
        ctx.ok("discard", "every state is cut to num_decisions()") if ok else ctx.undecided("discard", "the loop over the states is not recognised")

"""Rules on where effects may land: a state's own storage only; copies are complete and independent."""
from .engine import *
from .facts import program, AnalysisBroken
from .txn import NS, short, concrete_nodes, node_methods, is_state, paths_of, OWN
from .graphp import lw, where, strip_load
from .links import walk_ast, MUT

WRITES = ("w", "push", "cont", "algo", "init")


def takes_state(f):
    return any(is_state(t.replace("&", "").strip()) for t in f.get("pt", []))


def base(loc):
    x = loc
    while x[0] in ("mem", "idx"):
        x = x[1]
    return x


def classify(loc):
    """where a written location lives: 'own', 'fresh', 'node', 'other-state', 'static', 'param' or None"""
    x = base(loc)
    if x == OWN:
        return "own"
    if x == ("this",):
        return "node"
    if x[0] in ("slocal", "global"):
        return "static"
    if x[0] == "data":
        return "other-state"
    if x[0] in ("var", "tmp", "heap", "new"):
        return "fresh"
    if x[0] == "param":
        return "param"
    if x[0] == "deref":
        v = strip_load(x[1])
        if v[0] == "param":
            return "param"
        if contains(x[1], lambda z: z == OWN):
            return "own"
        if v[0] == "mem" and v[1] == ("this",) and loc != x:
            return "other-node"
    return None


def rule_effects(ctx):
    p = program()
    ctx.rule("state-effects", "every write made by a function that works on a state lands in that state's own data of that symbol, in locals or in "
             "objects the caller handed over: never in the symbol itself, another symbol, another symbol's data or static storage", 300)
    ctx.rule("const-effects", "a query on a symbol changes nothing but a cache computed from the symbol alone", 20)
    ctx.rule("no-static", "no function keeps values in static storage that it changes or that depend on the object it was first called for", 1)
    ctx.rule("state-slot", "a symbol creates or replaces only its own slot of the state", 20)
    for cls in concrete_nodes(p) + [NS + "Graph"]:
        for (nm, pt), f in node_methods(p, cls).items():
            if f.get("body") is None:
                continue
            tag = "%s::%s" % (short(cls), nm)
            st = takes_state(f)
            if not st and not (f.get("const") and cls != NS + "Graph"):
                continue
            if st and cls == NS + "Graph" and not (f.get("const") or f.get("static")):
                continue
            rule = "state-effects" if st else "const-effects"
            with ctx.guard(rule, tag):
                one(ctx, p, cls, f, tag, rule)
    statics(ctx, p)


def one(ctx, p, cls, f, tag, rule):
    pas = paths_of(p, f, cls)
    if pas is None:
        ctx.undecided(rule, tag)
        return
    muts = {fd["n"] for b, fd in p.fields(cls) if fd.get("mutable")}
    ctx.count("functions")
    ctx.count("paths", len(pas))
    bad = False
    nslot = 0
    for pa in pas:
        for e in flat(pa.events):
            if e.k not in WRITES or e.loc is None or e.k == "init":
                continue
            k = classify(e.loc)
            if k == "node":
                if not takes_state(f) and len(e.loc) == 3 and e.loc[2] in muts and not dep(e.val):
                    continue
                if cached(e, muts) and not dep(e.val):
                    continue
                bad = True
                ctx.bad(rule, tag + ":" + show(e.loc), lw(e), "%s changes the symbol itself (%s)%s: every state of the model shares it" % (tag, show(e.loc), " while working on a state" if takes_state(f) else ""))
            elif k == "static":
                bad = True
                ctx.bad(rule, tag + ":" + show(e.loc), lw(e), "%s changes static storage (%s) shared by every model and state" % (tag, show(e.loc)))
            elif k == "other-node":
                bad = True
                ctx.bad(rule, tag + ":" + show(e.loc), lw(e), "%s changes another symbol (%s)" % (tag, show(e.loc)))
            elif k == "other-state":
                own = base(e.loc)
                if e.k == "w" and e.val is not None and contains(e.val, lambda z: z == own) and not dep(e.val, own):
                    continue  # a cache inside the owner's data, computed from that data
                bad = True
                ctx.bad(rule, tag + ":" + show(e.loc), lw(e), "%s changes the state data of another symbol (%s)" % (tag, show(e.loc)))
            elif k in ("param", "fresh") and e.loc[0] == "idx" and e.k == "w":
                b = e.loc[1]
                if b[0] in ("param", "var") and is_state_var(f, b) and cls != NS + "Graph":
                    nslot += 1
                    i = strip_load(e.loc[2])
                    if i == ("mem", ("this",), "topological_index_"):
                        ctx.ok("state-slot", tag)
                    elif contains(e.loc[2], lambda z: len(z) == 3 and z[0] == "mem" and z[2] == "topological_index_" and z[1] != ("this",)):
                        bad = True
                        ctx.bad("state-slot", tag, lw(e), "%s replaces the state data of another symbol" % tag)
                    else:
                        ctx.undecided("state-slot", tag)
    if not bad:
        ctx.ok(rule, tag)


def cached(e, muts):
    x = e.loc
    while x[0] in ("mem", "idx") and x[1] != ("this",):
        x = x[1]
    return x[0] == "mem" and x[2] in muts


def dep(v, but=None):
    """does the value depend on an argument or on a state?"""
    if v is None:
        return False
    out = set()  # locals whose address is handed to a function that fills them in
    contains(v, lambda z: len(z) == 2 and z[0] == "addr" and isinstance(z[1], tuple) and z[1][0] == "var" and out.add(z[1]))
    return contains(v, lambda z: len(z) >= 2 and (z[0] in ("param", "var") and z not in out or z[0] == "data" and z != but))


def is_state_var(f, b):
    n = b[1] if b[0] == "param" else b[2] if len(b) > 2 else None
    return any(x["n"] == n and is_state(x["t"].replace("&", "").strip()) for x in f["params"])


def statics(ctx, p):
    """syntax-level: static locals and globals"""
    n = 0
    for lst in p.byid.values():
        f = lst[0]
        if f.get("body") is None:
            continue
        n += 1
        tag = short(f["q"])
        for e in walk_ast(f["body"]):
            if e.get("k") == "var" and (e.get("static") or e.get("tls")):
                ini = e.get("init")
                dynamic = [x for x in walk_ast(ini) if x.get("k") == "this" or x.get("k") == "ref" and x.get("dk") in ("param", "var")] if ini else []
                if dynamic:
                    ctx.bad("no-static", "%s:%s" % (tag, e["n"]), str(e.get("l")), "%s keeps '%s' in static storage, initialised from the first caller's data: every other model and state then sees that value" % (tag, e["n"]))
            tgt = None
            if e.get("k") == "mcall" and e.get("f", {}).get("n") in MUT | {"reset", "operator=", "operator+=", "operator()"}:
                tgt = e.get("o")
            elif e.get("k") == "assign":
                tgt = e.get("a")
            elif e.get("k") in ("inc", "un") and e.get("op") in ("++", "--", None):
                tgt = e.get("a") or e.get("x")
            elif e.get("k") == "call":
                # passed to something that takes it by non-const reference
                for a, t in zip(e.get("a") or [], (e.get("f") or {}).get("pt", [])):
                    if t.endswith("&") and not t.startswith("const ") and static_ref(a):
                        tgt = a
            if tgt is not None:
                r = static_ref(tgt)
                if r:
                    ctx.bad("no-static", "%s:%s" % (tag, r["n"]), str(e.get("l")), "%s changes '%s', which is shared by every model and state" % (tag, r["n"]))
    ctx.ok("no-static", "%d functions" % n)


def static_ref(t):
    """the static variable an lvalue expression designates (not one merely used as an index)"""
    while isinstance(t, dict):
        if t.get("k") == "ref":
            if t.get("dk") in ("slocal", "global") and not t.get("const") and not str(t.get("t", "")).startswith("const "):
                q = t.get("q") or ""
                return t if not q.startswith("std::") else None
            return None
        if t.get("k") in ("mem", "cast", "paren", "un", "sub", "index", "icast"):
            t = t.get("o") or t.get("a") or t.get("x") or t.get("b")
            if isinstance(t, list):
                t = t[0] if t else None
        elif t.get("k") in ("mcall", "opcall"):
            n = (t.get("f") or {}).get("n", "")
            if n in ("operator[]", "operator*", "at", "back", "front", "operator->"):
                t = t.get("o") or (t.get("a") or [None])[0]
            else:
                return None
        else:
            return None
    return None


# ----------------------------------------------------------------------- copies
ALIAS = re.compile(r"(\*|&|\bspan<|shared_ptr<|reference_wrapper<|[Ii]terator|string_view)")


def rule_copy(ctx):
    p = program()
    ctx.rule("copy-type", "copying the state data of any symbol yields an object of the same type", 18)
    ctx.rule("copy-complete", "the copy has every field of the original, unchanged", 18)
    ctx.rule("copy-independent", "no field of the copy refers into the original: pointers, views and iterators are renewed before each use", 18)
    used = made_types(p)
    for n in sorted(p.derived(NS + "NodeStateData")):
        if p.rec[n].get("abstract"):
            continue
        tag = short(n)
        with ctx.guard("copy-type", tag):
            copy_one(ctx, p, n, tag, used)


def made_types(p):
    """state data types that some symbol creates"""
    out = set()
    for lst in p.byid.values():
        f = lst[0]
        for e in walk_ast(f.get("body")):
            if e.get("k") == "call" and (e.get("f") or {}).get("n") in ("make_unique", "emplace_data_ptr"):
                out.add((e.get("t") or ""))
    return out


def copy_one(ctx, p, n, tag, used):
    f = next((f for b in p.bases(n) for f in p.methods_of(b) if f["n"] == "copy" and not f.get("pt")), None)
    if f is None:
        raise AnalysisBroken("no copy() for " + n)
    own = p.fields(n)
    names = [fd["n"] for b, fd in own if b != NS + "NodeStateData"]
    w = Walker(p)
    if f.get("body") is None:
        ctx.undecided("copy-type", tag)
        return
    for pa in w.run(f, cls=n):
        if pa.throws or pa.end[0] != "ret":
            continue
        v = pa.end[1]
        t, src = made(v, pa)
        if t is None:
            ctx.undecided("copy-type", "%s: %s" % (tag, show(v)))
            continue
        if t != n:
            ctx.bad("copy-type", tag, where(f), "copying %s yields a %s: everything %s adds is lost, and using the copy as what it should be is undefined" % (tag, short(t), tag))
            continue
        ctx.ok("copy-type", tag)
        changed = [e for e in flat(pa.events) if e.k in ("w", "push", "cont", "algo") and classify(e.loc) in ("fresh", "own", "node", None) and any(
            z[0] == "mem" and z[2] in names for z in subterms(e.loc) if len(z) == 3)]
        if src == "whole":
            cc = copy_ctor(ctx, p, n, tag)
            if changed and cc is not False:
                e = changed[0]
                ctx.bad("copy-complete", tag + ":" + fname(e.loc, names), lw(e), "the copy's %s is changed after copying: it differs from the original" % fname(e.loc, names))
            elif cc is None:
                ctx.ok("copy-complete", tag)
        else:
            terms = [v] + [e.val for e in flat(pa.events) if e.val is not None] + [a for e in flat(pa.events) if e.k == "call" for a in e.x["args"]] + list(pa.st.store.values() if pa.st else ())
            seen = {z[2] for t in terms if isinstance(t, tuple) for z in subterms(t) if len(z) == 3 and z[0] == "mem" and strip_load(z[1]) in (("this",), ("deref", ("this",)))}
            miss = [x for x in names if x not in seen]
            if miss:
                ctx.bad("copy-complete", tag + ":" + miss[0], where(f), "the copy does not take over %s" % ", ".join(miss))
            else:
                ctx.ok("copy-complete", tag)
    alias(ctx, p, n, tag, own)


def fname(loc, names):
    return next((z[2] for z in subterms(loc) if len(z) == 3 and z[0] == "mem" and z[2] in names), "?")


def made(v, pa, depth=0):
    """(type, 'whole' or 'parts') of the object a copy() returns"""
    if v[0] == "new":
        args = v[2:]
        whole = len(args) == 1 and strip_load(args[0]) in (("this",), ("deref", ("this",)))
        return v[1], "whole" if whole else "parts"
    if v[0] in ("load", "L", "addr", "deref") and pa.st and depth < 4:
        x = pa.st.store.get(v[1])
        if x is not None:
            return made(x, pa, depth + 1)
        if isinstance(v[1], tuple):
            return made(v[1], pa, depth + 1)
    if v[0] == "heap" or v[0] == "tmp":
        for z in v[1:]:
            if isinstance(z, str):
                return z, "whole" if False else "parts"
    return None, None


def copy_ctor(ctx, p, n, tag):
    """None: implicit; True: user-provided and complete; False: reported"""
    for f in p.methods_of(n):
        pt = f.get("pt", [])
        if f.get("isctor") and len(pt) == 1 and re.sub(r"^const |\s*&$", "", pt[0]).strip() == n and "&&" not in pt[0] and f.get("body") is not None and not f.get("defaulted"):
            nm = f["params"][0]["n"]
            seen = set()
            for e in walk_ast([f.get("inits"), f.get("body")]):
                if e.get("k") == "mem":
                    o = e.get("o") or e.get("a") or e.get("b") or {}
                    if any(x.get("k") == "ref" and x.get("n") == nm for x in walk_ast(o)):
                        seen.add(e["n"])
            own = [fd["n"] for b, fd in p.fields(n) if b == n]
            miss = [x for x in own if x not in seen]
            if miss:
                ctx.bad("copy-complete", tag + ":" + miss[0], where(f), "the copy constructor does not take over %s" % ", ".join(miss))
                return False
            ctx.ok("copy-complete", tag)
            return True
    return None


def alias(ctx, p, n, tag, own):
    risky = [fd for b, fd in own if ALIAS.search(fd["t"]) and not re.search(r"^const (double|char) \*$", fd["t"])]
    if not risky:
        ctx.ok("copy-independent", tag)
        return
    for fd in risky:
        loc = ("mem", OWN, fd["n"])
        stale = None
        users = 0
        for cls in concrete_nodes(p):
            for (nm, pt), f in node_methods(p, cls).items():
                if not takes_state(f) or f.get("body") is None:
                    continue
                for pa in paths_of(p, f, cls) or []:
                    if not data_type_is(p, pa, n, f, fd["n"], cls):
                        continue
                    fresh = False
                    for e in flat(pa.events):
                        if e.loc is not None and under(e.loc, loc):
                            if e.k in ("w", "cont") and e.loc == loc:
                                fresh = True
                                users += 1
                            continue
                        if not fresh and e.k in ("w", "push") and e.val is not None and contains(e.val, lambda z: z == loc):
                            stale = stale or (e, "%s::%s" % (short(cls), nm))
        if stale:
            ctx.bad("copy-independent", "%s:%s" % (tag, fd["n"]), lw(stale[0]), "%s reads through %s, which a copy of the state shares with the original (type %s)" % (stale[1], fd["n"], short(fd["t"])))
        elif "shared_ptr<" in fd["t"] and "shared_ptr<const" not in fd["t"]:
            ctx.bad("copy-independent", "%s:%s" % (tag, fd["n"]), str(p.rec[n].get("l")), "%s is shared between a state and its copy" % fd["n"])
        elif users:
            ctx.ok("copy-independent", "%s.%s is renewed before use" % (tag, fd["n"]))
        else:
            ctx.undecided("copy-independent", "%s.%s" % (tag, fd["n"]))


def data_type_is(p, pa, n, f, field, cls):
    """the node class works on state data that has this field (field names identify the data types well enough here)"""
    return any(contains(t, lambda z: z == ("mem", OWN, field)) for e in flat(pa.events) for t in (e.loc, e.val) if t is not None)

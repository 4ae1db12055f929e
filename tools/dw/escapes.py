"""Errors of the library reach Python: an exception thrown in C++ leaves no function that may not let it through, and the
Cython layer discards none."""
import itertools

from . import pyx
from .engine import subterms, show
from .facts import program, AnalysisBroken
from .graphp import where
from .pyrules import Layer, PyWalker, Capped, feasible, uncast, star
from .pyx import flat, fname
from .sizes import SPlay, IOpt
from .transfer import FAILS, Level
from .incr import functor
from .txn import NS, short, paths_of

PXD = ("libcpp/graph.pxd", "libcpp/array.pxd", "libcpp/nodes.pxd", "libcpp/state.pxd", "libcpp/__init__.pxd")
ENDERS = {"abort", "exit", "_Exit", "quick_exit", "terminate", "_exit"}


# --------------------------------------------------------------------------- what is declared to Cython
def declarations():
    """(class, name, number of arguments or None, line) of everything in the library that Cython calls without a handler"""
    out = []
    from .pyx import PKG

    def walk(n, cls, rel, lib):
        k = type(n).__name__
        if k == "CDefExternNode":
            walk(n.body, cls, rel, bool(n.include_file) and "dwave-optimization" in str(n.include_file))
        elif k == "StatListNode":
            for s in n.stats:
                walk(s, cls, rel, lib)
        elif k == "CppClassNode":
            for a in n.attributes or []:
                walk(a, str(n.name), rel, lib)
        elif k == "CVarDefNode":
            for d in n.declarators:
                while d is not None and type(d).__name__ != "CFuncDeclaratorNode":
                    d = getattr(d, "base", None)
                if d is None or not lib:
                    continue
                b = d.base
                while type(b).__name__ != "CNameDeclaratorNode":
                    b = b.base
                handled = d.exception_check == "+"
                out.append((cls, str(b.name), None if d.has_varargs else len(d.args), handled, "%s:%d" % (rel, n.pos[1])))
    for f in PXD:
        try:
            walk(pyx.parse_cython(PKG + f).body, None, PKG + f, False)
        except AnalysisBroken:
            if f.startswith(("libcpp/g", "libcpp/a", "libcpp/n")):
                raise
    return out


def throwers(p, f):
    """paths of a function that end in a throw: [path], None if unknown"""
    ps = paths_of(p, f, f.get("cls"))
    if ps is None:
        return None
    return [q for q in ps if q.end[0] == "throw"]


def inside(p, loc, f):
    """the location lies in the text of the function"""
    try:
        a, l, _ = loc.rsplit(":", 2)
        b, l0, _ = f["l"].rsplit(":", 2)
        _, l1, _ = f["end"].rsplit(":", 2)
        return a == b and int(l0) <= int(l) <= int(l1)
    except (ValueError, KeyError):
        return False


def origin(p, loc):
    best = None
    for lst in p.byid.values():
        f = lst[0]
        if f.get("body") is not None and inside(p, loc, f) and (best is None or int(f["l"].rsplit(":", 2)[1]) > int(best["l"].rsplit(":", 2)[1])):
            best = f
    return best


def leaves(q):
    out = set()
    for c in q.conds:
        for s in subterms(c):
            if s[0] == "param":
                out.add("param")
            elif s == ("this",) or s[0] in ("hav", "havi", "opaque"):
                out.add("state")
    return out


def marker(p, f, q):
    """the throw depends on a mark that the function itself stores during its traversal and that nothing else stores"""
    names = {s[1][-1] for c in q.conds for s in subterms(c) if s[0] == "load" and s[1][0] == "mem" and isinstance(s[1][-1], str)}
    src = origin(p, q.end[2]) or f
    return any(v is not None and v < -1 for n in names for v in stores(src, n))


def literal(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "icast", "paren"):
        e = e.get("e")
    if not isinstance(e, dict):
        return None
    if e.get("k") == "un" and e.get("op") == "-":
        v = literal(e.get("e"))
        return None if v is None else -v
    if e.get("k") == "lit":
        try:
            return int(str(e.get("v")))
        except ValueError:
            return None
    return None


def stores(f, name):
    out = []

    def walk(e):
        if isinstance(e, dict):
            if e.get("k") == "assign" and isinstance(e.get("x"), dict) and e["x"].get("n") == name:
                out.append(literal(e.get("y")))
            for v in e.values():
                walk(v)
        elif isinstance(e, list):
            for v in e:
                walk(v)
    walk(f.get("body") or [])
    return out


# --------------------------------------------------------------------------- arguments that make a function throw
INTS = (0, -1, 1, 2, -2)


def witness(p, f, q, fixed=None):
    """argument values for which the path is taken; None if there are none among the small ones; raises Unknown"""
    names = [x["n"] for x in f["params"]]
    choices = []
    for x in f["params"]:
        t = x["t"]
        if "optional" in t:
            choices.append([IOpt(None)] + [IOpt(v) for v in INTS])
        elif t.replace("const ", "").strip(" &") in ("int", "long", "ssize_t", "unsigned long", "std::size_t", "bool", "short"):
            choices.append(list(INTS))
        else:
            choices.append([None])
    decided = False
    for vs in itertools.product(*choices):
        P = SPlay({}, params={n: v for n, v in zip(names, vs) if v is not None}, functors=lambda t: functor(p, t))
        P.sub = None
        P.self_ = None
        P.levels.append(Level(0, P.snap()))
        try:
            if all(P.ev(c) for c in q.conds):
                yield dict(zip(names, vs))
            decided = True
        except FAILS:
            pass
        except (AttributeError, KeyError, TypeError, ValueError, ZeroDivisionError):
            pass
    if not decided:
        yield None


ALIASES = {}


def meant(p, cls):
    """the class a name in the .pxd stands for: itself, or what a `using` of the headers says"""
    if not ALIASES:
        ALIASES[None] = None
        import glob, os, re
        from .facts import REPO
        plain = lambda t: re.sub(r"\b[a-z_]+::", "", t).replace(" ", "")
        known = {plain(f["cls"]): f["cls"] for l in p.byid.values() for f in l[:1] if f.get("cls")}
        for h in glob.glob(os.path.join(REPO, "dwave/optimization/include/**/*.hpp"), recursive=True):
            for a, b in re.findall(r"^\s*using\s+(\w+)\s*=\s*([^;]+);", open(h).read(), re.M):
                if plain(b) in known:
                    ALIASES[a] = known[plain(b)]
    return ALIASES.get(cls) or NS + cls


def implementations(p, cls, name, n):
    out = []
    short_, cls = cls, meant(p, cls)
    for c in [cls] + sorted(p.derived(cls)):
        for f in p.methods_of(c):
            if f["n"] == name and f.get("body") is not None and (n is None or len(f["params"]) == n or len(f["params"]) > n and name != short_):
                out.append(f)
    # inherited ones
    for c in p.bases(cls)[1:]:
        for f in p.methods_of(c):
            if f["n"] == name and f.get("body") is not None and (n is None or len(f["params"]) == n):
                out.append(f)
    seen, res = set(), []
    for f in out:
        k = (f["l"], f["q"].split("<")[0])
        if k not in seen:
            seen.add(k)
            res.append(f)
    return res


class Sites:
    """calls of the Cython layer, with the paths that lead to them"""

    def __init__(self):
        self.L = Layer()
        self.alias = {}
        for n, m in self.L.mods.items():
            for s in m.stmts:
                if s["k"] == "cimport":
                    for a, b in s["names"]:
                        self.alias[(n, b or a)] = a
        self.memo = {}
        self.names = {}
        for mod, cls, name, f in self.L.functions():
            for e in pyx.exprs(f["body"]):
                for x in pyx.sub(e):
                    if x[0] == "call" and isinstance(x[1], tuple):
                        self.names.setdefault(fname(x[1]), []).append((mod, cls, name, f))

    def paths(self, mod, cls, name, f):
        k = id(f)
        if k not in self.memo:
            try:
                self.memo[k] = PyWalker(self.L.resolver(mod, cls)).run(f)
            except Capped:
                self.memo[k] = None
        return self.memo[k]

    def of(self, cls, name, n):
        """(what, path, event, conditions on the way) for each call"""
        wanted = {name}
        if cls == name:
            wanted = {b for (m, b), a in self.alias.items() if a == name} | {name}
        todo, seen = [], set()
        for w in wanted:
            for t in self.names.get(w, []):
                todo.append(t)
        # callers of internal functions
        out = []
        while todo:
            mod, c, nm, f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            if f["kind"] == "cdef" and any(True for t in self.names.get(nm, [])):
                todo += self.names.get(nm, [])
                continue
            ps = self.paths(mod, c, nm, f)
            for q in ps or []:
                for e, conds in flat(q.events):
                    if e["k"] == "call" and fname(e["f"]) in wanted and (n is None or len(e["args"]) == n):
                        cs = list(q.conds)
                        for _, it in conds:
                            cs += it.conds
                        out.append(("%s%s" % (c + "." if c else "", nm), q, e, cs))
        return out


def free(t):
    """the Python value an argument is, if it is one that the caller chooses: an attribute, element or parameter of a def"""
    while t[0] == "cast" or t[0] == "call" and t[1] in (("n", "int"), ("n", "index")) and len(t[2]) == 1:
        t = t[2] if t[0] == "cast" else t[2][0]
    b = t
    while b[0] in ("attr", "sub", "elem", "item"):
        b = b[1]
    return t if b[0] in ("param", "iter", "elem", "loopvar", "star") and b != ("param", "self") and t[0] != "call" else None


# --------------------------------------------------------------------------- rules
def rule_crossing(ctx):
    R = "handled-across"
    ctx.rule(R, "a library function which Cython calls without a handler (`except +`) cannot leave by an exception: where one of its paths "
             "throws, for arguments Python passes on, the process would be ended", minimum=1)
    p = program()
    S = None
    for cls, name, n, handled, line in declarations():
        if cls is None or handled:
            continue
        for f in implementations(p, cls, name, n):
            what = "%s::%s/%s (%s)" % (cls, name, "..." if n is None else n, short(f["q"]))
            qs = throwers(p, f)
            if qs is None:
                ctx.undecided(R, "%s: paths not known" % what)
                continue
            ctx.count("library functions called without a handler")
            if not qs:
                ctx.ok(R, what)
                continue
            S = S or Sites()
            verdict, why = "ok", None
            for q in qs:
                o = origin(p, q.end[2])
                own = o is not None and (o.get("cls") in p.bases(f.get("cls") or "") or (o["q"] or "").startswith(f["q"].split("<")[0]) or (o.get("cls") or "-").split("<")[0] == (f.get("cls") or "").split("<")[0]
                                          or "Node" in (f.get("cls") or "") and (o.get("cls") or "").startswith(NS) and o["cls"].endswith("Data"))
                lv = leaves(q)
                v = None
                if not lv:
                    ws = list(witness(p, f, q))
                    v = "undecided" if None in ws else "bad" if ws or not q.conds else "ok"
                    if v == "bad" and not S.of(cls, name, n):
                        v = "ok"
                elif lv == {"param"} and name == cls or lv == {"param"} and all(x["t"].strip(" &").split()[-1] in ("int", "long", "bool") for x in f["params"]):
                    v = crossing(p, S, f, q, cls, name, n)
                elif own and not marker(p, f, q):
                    sites = S.of(cls, name, n)
                    v = "ok" if not sites else "bad" if any(not guarded(f, q, e, conds) for _, _, e, conds in sites) else "undecided"
                else:
                    v = "undecided"
                if isinstance(v, tuple) or v == "bad":
                    verdict = "bad"
                    why = (q, v[1] if isinstance(v, tuple) else "")
                    break
                if v == "undecided":
                    verdict, why = "undecided", (q, "")
            if verdict == "bad":
                ctx.bad(R, "%s.%s" % (cls, name), line, "%s::%s is declared without `except +`, but throws %s at %s%s; the exception ends the process"
                        % (cls, name, why[0].end[1], str(why[0].end[2]).rsplit(":", 1)[0], why[1]))
            elif verdict == "undecided":
                ctx.undecided(R, "%s: a path throws under a condition that is not understood (%s)" % (what, [show(c)[:60] for c in why[0].conds][:3]))
            else:
                ctx.ok(R, what)


def guarded(f, q, e, conds):
    """the throw depends on arguments, and the caller looks at each of these before it calls"""
    used = {s[1] for c in q.conds for s in subterms(c) if s[0] == "param"}
    seen = bool(used)
    for x, a in zip(f["params"], e["args"]):
        a = uncast(a)
        if x["n"] not in used:
            continue
        if "*" in x["t"]:
            if a[0] == "call":
                continue
            roots = {a} | ({a[1], uncast(a[1])} | {("attr", b, m) for b in (a[1], uncast(a[1])) for m in ("node_ptr", "array_ptr")} if a[0] == "attr" else set())
        elif x["t"].replace("const ", "").strip(" &") in NUMS:
            if free(a) is None:
                continue
            roots = {a}
        else:
            return False
        here = False
        for c in conds:
            for y in pyx.sub(c):
                if y[0] == "attr" and y[1] in roots and y not in roots and y[2] not in ("model", "node_ptr", "array_ptr") or y[0] == "call" and y[1] != ("n", "isinstance") and any(uncast(z) in roots for z in y[2]):
                    here = True
                if y[0] == "cmp" and "*" not in x["t"] and any(isinstance(z, tuple) and uncast(z) in roots for z in walk1(y)):
                    here = True
        seen = seen and here
    return seen


NUMS = ("int", "long", "ssize_t", "unsigned long", "std::size_t", "bool", "short", "double")


def walk1(t):
    for z in t[1:]:
        if isinstance(z, tuple):
            yield z
            if z and not isinstance(z[0], str):
                yield from (w for w in z if isinstance(w, tuple))


def crossing(p, S, f, q, cls, name, n):
    """does a Python call site pass arguments for which the path is taken?"""
    ws = list(witness(p, f, q))
    if None in ws:
        return "undecided"
    if not ws:
        return "ok"
    out = "ok"
    names = [x["n"] for x in f["params"]]
    for what, pq, e, conds in S.of(cls, name, n):
        args = [uncast(a) for a in e["args"]]
        for w in ws:
            val = {}
            fits = True
            for nm, a in zip(names, args):
                v = w[nm]
                fr = free(a)
                if a[0] == "new" or a == ("const", None) or a[0] == "n" and a[1] == "nullopt":
                    if not (isinstance(v, IOpt) and not v.has):
                        fits = False
                elif a[0] == "const":
                    if isinstance(v, IOpt) and not v.has or a[1] != int(v):
                        fits = False
                elif fr is not None:
                    if isinstance(v, IOpt) and not v.has:
                        fits = False
                    val[fr] = None if v is None else int(v)
                elif v is not None:
                    fits = None
            if fits is False:
                continue
            if fits is None:
                out = "undecided"
                continue

            def valuation(t):
                return val.get(t)
            if feasible(conds, valuation):
                return ("bad", ", which %s reaches with %s" % (what, ", ".join("%s = %s" % (nm, int(w[nm]) if w[nm] is not None and (not isinstance(w[nm], IOpt) or w[nm].has) else "none") for nm in names)))
    return out


def rule_noexcept(ctx):
    R = "noexcept-kept"
    ctx.rule(R, "a function declared noexcept, or a destructor, does not throw: neither always, nor for some arguments", minimum=1)
    p = program()
    for lst in p.byid.values():
        f = lst[0]
        if not f.get("nx") or not f.get("repo") or f.get("body") is None:
            continue
        if not has_throw(f):
            ctx.ok(R, short(f["q"]))
            continue
        qs = throwers(p, f)
        if qs is None:
            ctx.undecided(R, "%s: paths not known" % short(f["q"]))
            continue
        und = None
        for q in qs:
            if not inside(p, q.end[2], f):
                continue
            lv = leaves(q)
            if not q.conds or "state" in lv:
                w = [{}]
            else:
                w = [x for x in witness(p, f, q)]
            if w and w[0] is None:
                und = q
            elif w:
                ctx.bad(R, short(f["q"]), where(f), "%s may not let exceptions through, but throws %s at %s%s: the process ends"
                        % (short(f["q"]), q.end[1], str(q.end[2]).rsplit(":", 1)[0], " for " + str({k: int(v) for k, v in w[0].items() if v is not None}) if w[0] else ""))
                und = None
                break
        else:
            if und is not None:
                ctx.undecided(R, "%s: a throw under a condition that is not understood" % short(f["q"]))
            else:
                ctx.ok(R, short(f["q"]))


def has_throw(f):
    return "'k': 'throw'" in str(f.get("body"))


def rule_discarded(ctx):
    R = "none-discarded"
    ctx.rule(R, "no function of the Cython layer that is declared noexcept raises: the exception would be printed and lost", minimum=1)
    L = Layer()
    for mod, cls, name, f in L.functions():
        if f["kind"] != "cdef" or f.get("exc") is None or f["exc"][0] or f["exc"][1]:
            continue
        what = "%s%s" % (cls + "." if cls else "", name)
        try:
            qs = PyWalker(L.resolver(mod, cls)).run(f)
        except Capped:
            ctx.undecided(R, what)
            continue
        ctx.count("Cython functions that may not raise")
        bad = [q for q in qs if q.raises]
        if bad:
            ctx.bad(R, what, "%s (%s)" % (f["l"], what), "%s is declared noexcept, but raises at %s: the error is discarded" % (what, bad[0].end[-1]))
        else:
            ctx.ok(R, what)
    p = program()
    for lst in p.byid.values():
        f = lst[0]
        if f.get("repo") and f.get("body") is not None:
            for e in enders(f["body"]):
                ctx.bad(R, short(f["q"]) + "." + e[0], where(f), "%s ends the process (%s at %s)" % (short(f["q"]), e[0], e[1]))


def enders(e):
    if isinstance(e, dict):
        g = e.get("f")
        if e.get("k") == "call" and isinstance(g, dict) and g.get("n") in ENDERS and str(g.get("q", "")).replace("std::", "") in ENDERS:
            yield g["n"], e.get("l")
        for v in e.values():
            yield from enders(v)
    elif isinstance(e, list):
        for v in e:
            yield from enders(v)

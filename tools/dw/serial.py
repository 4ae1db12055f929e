"""P18: what is saved is what is loaded."""
from . import pyx
from .pyx import PyWalker, flat, sub, has, ren, fname
from .pyrules import Layer, uncast, strip, decos, run_paths, ev, feasible, Unknown, SYM, MOD, STA, MPY

SUPERS = ("_into_zipfile", "_from_zipfile", "_state_into_zipfile", "_state_from_zipfile")
# what a constructor parameter means
PARAM = {"shape": ("SHAPE", 0), "lower_bound": ("LB", 0), "upper_bound": ("UB", 0), "n": ("N", 0), "min_size": ("SMIN", 0), "max_size": ("SMAX", 0),
         "primary_set_size": ("PSS", 0), "num_disjoint_sets": ("ND", 0), "num_disjoint_lists": ("ND", 0), "set_index": ("INDEX", 0), "list_index": ("INDEX", 0),
         "axis": ("AXIS", 0), "array_like": ("VALUES", 0)}
# what the accessors of a symbol (or of its node) return, in the same words
GET = {"shape": ("SHAPE", 0), "lower_bound": ("LB", 0), "upper_bound": ("UB", 0), "primary_set_size": ("PSS", 0), "num_disjoint_sets": ("ND", 0),
       "num_disjoint_lists": ("ND", 0), "set_index": ("INDEX", 0), "list_index": ("INDEX", 0), "axis": ("AXIS", 0), "axes": ("AXES", 0),
       "sizeinfo.min": ("SMIN", 0), "sizeinfo.max": ("SMAX", 0)}
GETC = {"IntegerVariable": {"min": ("LB", 0), "max": ("UB", 0)},
        "ListVariable": {"max": ("N", -1), "sizeinfo.min": ("N", 0), "sizeinfo.max": ("N", 0), "size": ("N", 0), "min": (None, 0)},
        "SetVariable": {"max": ("N", -1), "min": (None, 0)},
        "BinaryVariable": {"max": (None, 1), "min": (None, 0)}}
NARROW = {"float32", "single", "float16", "half", "int8", "uint8", "int16", "uint16", "short", "bool", "bool_", "byte", "ubyte", "ushort"}
INTS = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intp", "intc", "int", "int_", "uint", "bool", "bool_", "long", "longlong"}


def super_resolver(L, mod, cls):
    base = L.resolver(mod, cls)

    def r(f, args, kw, st):
        if f[0] == "attr" and f[1][0] == "call" and f[1][1] == ("n", "super"):
            for c in L.mro(cls)[1:]:
                if c in L.classes and f[2] in L.classes[c][1]["methods"]:
                    return L.classes[c][1]["methods"][f[2]], ("param", "self")
            return None
        return base(f, args, kw, st)
    return r


# --------------------------------------------------------------------------- members of the file
def parts(t):
    t = uncast(t)
    if t[0] == "bin" and t[1] == "+":
        return parts(t[2]) + parts(t[3])
    if t[0] == "fstr":
        out = []
        for x in t[1]:
            out += parts(x) if x[0] == "const" else [("hole", strip(x))]
        return out
    if t[0] == "const" and isinstance(t[1], str):
        return [t[1]] if t[1] else []
    if t[0] == "call" and t[1] == ("n", "str") and len(t[2]) == 1:
        return [("hole", strip(t[2][0]))]
    return [("hole", strip(t))]


def norm(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def member(t, directory=("param", "directory")):
    """(name pattern, holes) of a file name, None if it is not understood"""
    ps = norm(parts(t))
    if directory is not None:
        if not ps or ps[0] != ("hole", directory):
            return None
        ps = ps[1:]
    return "".join(x if isinstance(x, str) else "{}" for x in ps), [x[1] for x in ps if not isinstance(x, str)]


def is_open(t):
    t = uncast(t)
    return t if t[0] == "call" and fname(t[1]) == "open" and t[2] else None


def mode_of(o):
    kw = dict(o[3])
    m = kw.get("mode") or (o[2][1] if len(o[2]) > 1 else ("const", "r"))
    return m[1] if m[0] == "const" else "?"


def decoded(t):
    """term that a json text encodes, or None"""
    t = uncast(t)
    if t[0] == "call" and fname(t[1]) in ("encode", "dumps", "decode") and t[1][0] == "attr":
        o = uncast(t[1][1])
        if fname(t[1]) == "dumps" or fname(t[1]) == "encode" and o[0] == "call" and fname(o[1]) == "JSONEncoder":
            return t[2][0] if t[2] else None
        return decoded(o)
    return None


class Write:
    def __init__(self, name, holes, enc, value, e, loops, path):
        self.name, self.holes, self.enc, self.value, self.e, self.loops, self.path = name, holes, enc, value, e, loops, path


def writes(p, directory=("param", "directory")):
    """(list of Write, understood) of a path"""
    out, odd = [], False
    for e, c in flat(p.events):
        if e["k"] != "call":
            continue
        f, a = e["f"], e["args"]
        n = fname(f)
        if n == "writestr" and len(a) >= 2:
            m = member(a[0], directory)
            d = decoded(a[1])
            if m is None:
                odd = True
            else:
                out.append(Write(m[0], m[1], "json" if d is not None else "raw", strip(d) if d is not None else strip(a[1]), e, c, p))
        elif n in ("save", "dump", "write") and a:
            # np.save(f, x), json.dump(x, f), f.write(x)
            fh, x = (f[1], a[0]) if n == "write" and f[0] == "attr" else (a[0], a[1]) if n == "save" and len(a) > 1 else (a[1], a[0]) if n == "dump" and len(a) > 1 else (None, None)
            if fh is None:
                odd = True
                continue
            fh = uncast(fh)
            o = is_open(fh[1]) if fh[0] == "ctx" else is_open(fh)
            m = member(o[2][0], directory) if o is not None else None
            if m is None:
                odd = True
                continue
            d = decoded(x) if n == "write" else None
            out.append(Write(m[0], m[1], "npy" if n == "save" else "json" if n == "dump" or d is not None else "raw", strip(d if d is not None else x), e, c, p))
        elif n == "savez" or n in ("dumps", "savetxt"):
            odd = odd or n != "dumps"
    return out, odd


def reads(p, directory=("param", "directory")):
    """[(name, holes, event, loops)] members opened for reading"""
    out, odd = [], False
    for e, c in flat(p.events):
        if e["k"] != "call":
            continue
        n = fname(e["f"])
        if n in ("open", "read", "getinfo") and e["f"][0] == "attr" and e["args"]:
            a = uncast(e["args"][0])
            if n == "open" and a[0] == "call" and fname(a[1]) == "getinfo":
                continue    # counted at getinfo
            if n == "open" and mode_of(e["t"]) != "r":
                continue
            if n == "read" and e["f"][1][0] == "ctx":
                continue
            m = member(a, directory)
            if m is None:
                odd = True
            else:
                out.append((m[0], m[1], e, c, n))
    return out, odd


def source(t, directory=("param", "directory")):
    """(name, encoding) if the term is the decoded content of a member"""
    t = uncast(t)
    if t[0] != "call":
        return None
    n = fname(t[1])
    if n in ("load", "loads") and t[2]:
        x = uncast(t[2][0])
        while x[0] == "call" and fname(x[1]) in ("decode", "read") and x[1][0] == "attr" and not (fname(x[1]) == "read" and x[2]):
            x = uncast(x[1][1])
        if x[0] == "or":
            x = uncast(x[1])    # the content, unless it is empty
        if x[0] == "ctx":
            x = uncast(x[1])
        if x[0] == "call" and fname(x[1]) in ("open", "read") and x[2]:
            y = uncast(x[2][0])
            if y[0] == "call" and fname(y[1]) == "getinfo" and y[2]:
                y = y[2][0]
            m = member(y, directory)
            if m is not None:
                np_ = t[1][0] == "attr" and t[1][1] in (("n", "np"), ("n", "numpy"), ("glob", "np"), ("glob", "numpy"))
                return m[0], "npy" if np_ else "json"
    return None


# --------------------------------------------------------------------------- composition of reading after writing
class Odd(Exception):
    pass


class Missing(Exception):
    pass


def field(v, k, p, default=None):
    """the field k of a written value"""
    v = uncast(v)
    if v[0] == "call" and v[1] == ("n", "dict") and not v[2]:
        d = dict(v[3])
        if any(n is None or n == "**" for n in d):
            raise Odd("dict")
        if k in d:
            return d[k]
    elif v[0] == "dict":
        d = {}
        for a, b in v[1]:
            if a is None or a[0] != "const":
                raise Odd("dict")
            d[a[1]] = b
        if k in d:
            return d[k]
    elif v[0] in ("tuple", "list") and isinstance(k, int):
        if -len(v[1]) <= k < len(v[1]) and not any(z[0] == "star" for z in v[1]):
            return v[1][k]
        raise Odd("index")
    elif isinstance(k, int):
        return ("sub", v, ("const", k))
    else:
        raise Odd("field")
    for e, c in flat(p.events):
        if e["k"] == "store" and e["t"][0] == "sub" and strip(e["t"][1]) == v and e["t"][2] == ("const", k):
            return strip(e["v"])
        if e["k"] == "call" and fname(e["f"]) in ("update", "setdefault") and e["f"][0] == "attr" and strip(e["f"][1]) == v:
            raise Odd("update")
    if default is not None:
        return default
    raise Missing(k)


def compose(t, W, p):
    """the reader's term with the writer's values in place of what is read"""
    t = uncast(t)
    s = source(t)
    if s is not None:
        for w in W:
            if w.name == s[0]:
                if w.enc != s[1]:
                    raise Odd("encoding")
                return w.value
        raise Missing(s[0])
    if t[0] == "sub" and t[2][0] == "const":
        return field(compose(t[1], W, p), t[2][1], p)
    if t[0] == "call" and fname(t[1]) == "get" and t[1][0] == "attr" and t[2] and t[2][0][0] == "const":
        return field(compose(t[1][1], W, p), t[2][0][1], p, default=strip(t[2][1]) if len(t[2]) > 1 else ("const", None))
    if t[0] == "bin":
        return (t[0], t[1], compose(t[2], W, p), compose(t[3], W, p))
    if t[0] == "call" and t[1][0] == "n" and len(t[2]) == 1 and not t[3]:
        return ("call", t[1], (compose(t[2][0], W, p),), ())
    if t[0] in ("tuple", "list"):
        return (t[0], tuple(compose(x, W, p) for x in t[1]))
    return t


def canon(cls, t):
    """(word, offset) for a written term, None if not understood"""
    t = uncast(t)
    if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return None, t[1]
    if t[0] == "param" and t[1] == "self" or t[0] == "n" and t[1] == "self":
        return "VALUES", 0
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, b = canon(cls, t[2]), canon(cls, t[3])
        if a is None or b is None:
            return None
        if b[0] is None:
            return a[0], a[1] + (b[1] if t[1] == "+" else -b[1])
        if a[0] is None and t[1] == "+":
            return b[0], a[1] + b[1]
        return None
    if t[0] == "call":
        n = fname(t[1])
        if t[1][0] == "n" and n in ("int", "float", "list", "tuple") and len(t[2]) == 1:
            return canon(cls, t[2][0])
        if t[1][0] == "attr":
            if n in ("tolist", "item") and not t[2]:
                return canon(cls, t[1][1])
            if n in ("asarray", "array", "ascontiguousarray") and t[2] and not any(k != "dtype" for k, v in t[3]):
                if dtype_of(t) in NARROW | INTS:
                    return None
                return canon(cls, t[2][0])
            o = uncast(t[1][1])
            if n in ("value", "value_or"):
                return canon(cls, o)
            if (o == ("param", "self") or o[0] == "attr" and o[2] == "ptr" and o[1] == ("param", "self")) and not t[2]:
                return GETC.get(cls, {}).get(n) or GET.get(n)
    if t[0] == "attr":
        o = uncast(t[1])
        if o[0] == "call" and fname(o[1]) == "sizeinfo":
            return GETC.get(cls, {}).get("sizeinfo." + t[2]) or GET.get("sizeinfo." + t[2])
        if o == ("param", "self") and t[2] == "size" and "size" in GETC.get(cls, {}):
            return GETC[cls]["size"]
    if t[0] == "sub" and t[2] == ("const", 0):
        a = canon(cls, t[1])
        if a == ("AXES", 0):
            return "AXIS", 0
        if a == ("SHAPE", 0) and cls in ("ListVariable",):
            return "N", 0
    return None


def dtype_of(t):
    for k, v in t[3]:
        if k == "dtype":
            return name_of(v)
    if fname(t[1]) in ("astype",) and t[2]:
        return name_of(t[2][0])
    if fname(t[1]) in ("asarray", "array", "empty", "zeros") and len(t[2]) > 1:
        return name_of(t[2][1])
    return None


def name_of(v):
    v = uncast(v)
    return v[2] if v[0] == "attr" else v[1] if v[0] in ("n", "glob") else str(v[1]) if v[0] == "const" else None


def under(w_conds, r):
    """the word has a fixed value under conditions like self.axis() == 0"""
    return None


# --------------------------------------------------------------------------- symbols
def rule_symbols(ctx):
    ctx.rule("member-written", "every part of the file a symbol reads on loading was written by it on saving, on every path, in the same encoding", 6)
    ctx.rule("parameter", "each constructor argument on loading is the value the original symbol was constructed with", 6)
    ctx.rule("operands", "a loaded symbol gets all its predecessors, in order", 8)
    ctx.rule("overrides", "a symbol with parameters other than operands saves and loads them itself", 12)
    L = Layer()
    classes = [c for c, (m, d) in L.classes.items() if m == SYM and "_from_symbol" in d["methods"] and "__init__" in d["methods"]]
    ctx.count("symbol classes", len(classes))
    for cls in classes:
        with ctx.guard("parameter", cls):
            one_class(ctx, L, cls)


def init_of(L, cls):
    c, f = L.method(cls, "__init__")
    return f


def extra_params(f):
    """constructor parameters that are no operands"""
    out = []
    for n, ty, d in [(x[0], x[1] if len(x) > 1 else None, x[2] if len(x) > 2 else None) for x in (tuple(p.values()) if isinstance(p, dict) else p for p in f["params"])]:
        out.append((n, ty, d))
    return out


def one_class(ctx, L, cls):
    wc, wf = L.method(cls, "_into_zipfile")
    rc, rf = L.method(cls, "_from_zipfile")
    f = init_of(L, cls)
    if wf is None or rf is None or f is None:
        ctx.undecided("parameter", cls)
        return
    ps = [p for p in f["params"] if p["n"] not in ("self",)]
    plain = [p["n"] for p in ps if plainly(p, f)]
    own = rc == cls
    wps = [p for p in PyWalker(super_resolver(L, L.classes[wc][0], wc)).run(wf) if not p.raises]
    rps = [p for p in PyWalker(super_resolver(L, L.classes[rc][0], rc)).run(rf) if p.end[0] == "return"]
    if not own:
        # the inherited loader passes the predecessors only
        if plain and emplaced(f, plain):
            if any(t is not None for t in [None]) or wc == cls:
                ctx.bad("overrides", cls, f["l"], "%s is constructed from %s, which loading does not restore (it has no _from_zipfile of its own)" % (cls, ", ".join(plain)))
            else:
                ctx.bad("overrides", cls, f["l"], "%s is constructed from %s, which is neither saved nor restored" % (cls, ", ".join(plain)))
        else:
            ctx.ok("overrides", "%s: only operands" % cls)
    else:
        ctx.ok("overrides", "%s: saves and loads itself" % cls)
    W = []
    for p in wps:
        w, odd = writes(p)
        W.append((p, w, odd))
    for q in rps:
        rs, odd = reads(q)
        for name, holes, e, c, kind in rs:
            for p, w, wodd in W:
                m = [x for x in w if x.name == name]
                if m:
                    ctx.ok("member-written", "%s: %s" % (cls, name))
                elif wodd or odd:
                    ctx.undecided("member-written", "%s: %s" % (cls, name))
                elif any(ev2["k"] == "except" for ev2, _ in flat(q.events)) or kind == "getinfo":
                    ctx.ok("member-written", "%s: %s is optional" % (cls, name))
                else:
                    ctx.bad("member-written", "%s|%s" % (cls, name), e["l"], "loading a %s reads %s, which saving it does not write%s" % (cls, name, when(p)))
        t = uncast(q.end[1])
        if t[0] != "call":
            ctx.undecided("parameter", "%s: the loaded symbol" % cls)
            continue
        target = t[1]
        if not (target == ("param", "cls") or target[0] in ("n", "glob")):
            ctx.undecided("parameter", "%s: the loaded symbol" % cls)
            continue
        if target[0] in ("n", "glob") and target[1] != rc and target[1] != cls:
            if target[1] in L.classes and own:
                ctx.bad("parameter", "%s|class" % cls, q.end[2], "loading a %s makes a %s" % (cls, target[1]))
            else:
                ctx.undecided("parameter", "%s: the loaded symbol" % cls)
            continue
        loaded_operands(ctx, cls, f, ps, plain, t, q)
        if not own:
            continue
        bound = bind(ps, f, t)
        if bound is None:
            ctx.undecided("parameter", "%s: arguments" % cls)
            continue
        for n in plain:
            if n not in bound:
                if passed_elsewhere(L, cls, n, ps):
                    ctx.bad("parameter", "%s|%s" % (cls, n), q.end[2], "loading a %s does not restore its %s" % (cls, n))
                continue
            if n not in PARAM:
                continue
            for p, w, wodd in W:
                check_param(ctx, cls, n, bound[n], p, w, q)
    if own and cls not in ("Concatenate",):
        special(ctx, L, cls, W, rps, ps, f)


def when(p):
    cs = [ren(c) for c in p.conds if c[0] in pyx.KINDS]
    return " when " + " and ".join(cs) if cs else ""


def plainly(p, f):
    """parameter that is no symbol and no model"""
    ty = p.get("t") or ""
    if isinstance(ty, (tuple, list)):
        ty = ren(ty) if isinstance(ty, tuple) else " ".join(ty)
    if p["n"] in ("model", "array", "x", "lhs", "rhs", "parent", "inputs", "condition", "y", "xs", "node", "predecessor"):
        return False
    return not any(k in str(ty) for k in ("Symbol", "_Graph", "Model", "Disjoint"))


def emplaced(f, names):
    """some emplacement depends on one of the named parameters"""
    for p in PyWalker(lambda *a: None).run(f):
        for e, c in flat(p.events):
            if e["k"] == "call" and e["f"][0] == "sub" and e["f"][1][0] == "attr" and e["f"][1][2] == "emplace_node":
                if any(z[0] == "param" and z[1] in names for a in e["args"] for z in sub(a)):
                    return True
    return False


def unstar(args):
    """positional arguments with the known parts of starred sums spelled out"""
    out = []
    for a in args:
        if a[0] == "star":
            b = uncast(a[1])
            if b[0] == "bin" and b[1] == "+":
                out += unstar((("star", b[2]),)) + unstar((("star", b[3]),))
            elif b[0] in ("tuple", "list") and b[1]:
                out += unstar(b[1])
            else:
                out.append(a)
        else:
            out.append(a)
    return out


def bind(ps, f, t):
    """argument terms by parameter name"""
    names = [p["n"] for p in ps]
    star = f.get("star")
    out = {}
    i = 0
    for a in unstar(t[2]):
        if a[0] == "star":
            # *predecessors fills the operands
            src = a[1]
            while i < len(names) and not plainly(ps[i], f):
                out[names[i]] = ("sub", src, ("const", i))
                i += 1
            continue
        if i < len(names):
            out[names[i]] = a
            i += 1
        elif not star:
            return None
    for n, v in t[3]:
        if n is None or n == "**":
            return None
        out[n] = v
    return out


def passed_elsewhere(L, cls, n, ps):
    names = [p["n"] for p in ps]
    for mod, c, name, g in L.functions():
        if name == "_from_zipfile":
            continue
        for x in pyx.exprs(g["body"]):
            for z in sub(x):
                if z[0] == "call" and fname(z[1]) == cls:
                    if any(k == n for k, v in z[3]) or len(z[2]) > names.index(n):
                        return True
    return False


def check_param(ctx, cls, n, term, p, w, q):
    item = "%s: %s" % (cls, n)
    try:
        v = compose(term, w, p)
    except Missing as m:
        ctx.bad("parameter", "%s|%s" % (cls, n), q.end[2], "loading a %s reads %s, which is not among what is saved%s" % (cls, m, when(p)))
        return
    except Odd:
        ctx.undecided("parameter", item)
        return
    want = PARAM[n]
    got = canon(cls, v)
    if got is None:
        if n == "array_like" and has(v, lambda z: z[0] == "call" and (dtype_of(z) in NARROW | INTS)):
            ctx.bad("parameter", "%s|%s" % (cls, n), q.end[2], "the saved values of a %s are narrowed (%s)" % (cls, ren(v)))
            return
        # conditions of the saving path may fix the value
        if v[0] == "const" and v[1] is None and any(mentions(c, want[0], cls) for c in p.conds):
            ctx.undecided("parameter", item)
            return
        if v == ("const", None) and n not in ("lower_bound", "upper_bound"):
            ctx.bad("parameter", "%s|%s" % (cls, n), q.end[2], "loading a %s restores no %s%s" % (cls, n, when(p)))
            return
        ctx.undecided("parameter", item)
        return
    if got == want:
        ctx.ok("parameter", "%s = %s" % (item, ren(v)))
        return
    if got[0] is None and any(fixes(c, want[0], got[1], cls) for c in p.conds + q.conds):
        ctx.ok("parameter", "%s = %s%s" % (item, got[1], when(p)))
        return
    if got[0] is None and any(mentions(c, want[0], cls) for c in p.conds):
        ctx.undecided("parameter", item)
        return
    ctx.bad("parameter", "%s|%s" % (cls, n), q.end[2], "loading a %s constructs it with %s = %s of the saved symbol%s" % (cls, n, ren(v), when(p)))


def mentions(c, word, cls):
    return c[0] in pyx.KINDS and any((canon(cls, z) or (None, 0))[0] == word for z in sub(c) if z[0] in pyx.KINDS)


def fixes(c, word, value, cls):
    if c[0] == "cmp" and c[1] in ("==", "is"):
        a, b = canon(cls, c[2]), canon(cls, c[3])
        return a is not None and b is not None and ((a[0] == word and b == (None, value + a[1])) or (b[0] == word and a == (None, value + b[1])))
    if c[0] == "not":
        a = canon(cls, c[1])
        return a is not None and a == (word, 0) and value == 0
    return False


def loaded_operands(ctx, cls, f, ps, plain, t, q):
    """predecessors are passed in order"""
    P = ("param", "predecessors")
    flatargs, whole = [], False
    for a in unstar(t[2]):
        b = uncast(a[1] if a[0] == "star" else a)
        while b[0] == "call" and b[1][0] == "n" and b[1][1] in ("tuple", "list") and len(b[2]) == 1:
            b = uncast(b[2][0])
        if b == P:
            whole = True
        elif b[0] == "sub" and uncast(b[1]) == P:
            flatargs.append(b[2])
        elif b[0] == "call" and fname(b[1]) in ("sorted", "reversed", "set") and has(b, lambda z: z == P):
            ctx.bad("operands", cls, q.end[2], "a loaded %s does not get its predecessors in the saved order (%s)" % (cls, ren(b)))
            return
    ops = [p["n"] for p in ps if p["n"] not in plain and p["n"] != "model"]
    if not ops and not f.get("star"):
        ctx.ok("operands", "%s: none" % cls)
        return
    if whole:
        ctx.ok("operands", "%s: all predecessors" % cls)
        return
    ks = [x[1] for x in flatargs if x[0] == "const"]
    slices = [x for x in flatargs if x[0] != "const"]
    if slices:
        ctx.undecided("operands", cls)
    elif ks and ks == list(range(len(ks))) and len(ks) >= min(1, len(ops)):
        if len(ks) < len(ops):
            ctx.bad("operands", cls, q.end[2], "a loaded %s gets only %d of its predecessors" % (cls, len(ks)))
        else:
            ctx.ok("operands", "%s: predecessors %s" % (cls, ks))
    elif ks:
        ctx.bad("operands", cls, q.end[2], "a loaded %s gets its predecessors in the order %s" % (cls, ks))
    else:
        ctx.undecided("operands", cls)


def special(ctx, L, cls, W, rps, ps, f):
    if f.get("star") == "indices":
        for p, w, odd in W:
            for x in w:
                if x.enc == "json":
                    entries(ctx, cls, "saving", x.value, p, x.e["l"])
        for q in rps:
            t = uncast(q.end[1])
            for a in unstar(t[2]) if t[0] == "call" else []:
                if a[0] == "star" and uncast(a[1]) != ("param", "predecessors"):
                    entries(ctx, cls, "loading", uncast(a[1]), q, q.end[2])
    elif cls == "QuadraticModel":
        quadratic(ctx, cls, W, rps, ps, f)


def entries(ctx, cls, verb, v, p, where):
    """one entry per index, and what an entry is"""
    item = "%s: %s its indices" % (cls, verb)
    if v[0] == "comp":
        if any(g[2] for g in v[3]):
            ctx.bad("parameter", "%s|%s|filter" % (cls, verb), where, "%s a %s leaves out some of its indices" % (verb, cls))
            return
        entry(ctx, cls, verb, v[2], [], where, item)
        return
    if v[0] != "list":
        ctx.undecided("parameter", item)
        return
    n = 0
    for e in p.events:
        if e["k"] != "loop":
            continue
        app = [x for x, c in flat([e]) if x["k"] == "call" and fname(x["f"]) in ("append", "extend", "insert") and x["f"][0] == "attr" and uncast(x["f"][1]) == v]
        if not app:
            continue
        n += 1
        for q in e["paths"]:
            if q.end[0] not in ("normal", "continue"):
                continue
            mine = [x for x, c in flat(q.events) if x in app]
            if any(c for x, c in flat(q.events) if x in app) or any(fname(x["f"]) != "append" for x in mine):
                ctx.undecided("parameter", item)
            elif len(mine) != 1:
                ctx.bad("parameter", "%s|%s|count" % (cls, verb), e["l"], "%s a %s records %d entries for an index%s" % (verb, cls, len(mine), when(q)))
            else:
                entry(ctx, cls, verb, mine[0]["args"][0], q.conds, mine[0]["l"], item)
    if not n:
        ctx.undecided("parameter", item)


def entry(ctx, cls, verb, v, conds, where, item):
    v = strip(v)
    if v[0] == "ifexp":
        entry(ctx, cls, verb, v[2], conds, where, item)
        entry(ctx, cls, verb, v[3], conds, where, item)
        return
    if v[0] in ("tuple", "list") and len(v[1]) == 3 and all(x[0] == "attr" for x in v[1]):
        names = [x[2] for x in v[1]]
        if sorted(names) == ["start", "step", "stop"] and names != ["start", "stop", "step"]:
            ctx.bad("parameter", "%s|%s|slice" % (cls, verb), where, "a slice is saved as (%s), but loaded as (start, stop, step)" % ", ".join(names))
        else:
            ctx.ok("parameter", "%s: slices" % item)
        return
    if v[0] == "call" and v[1] == ("n", "slice") and len(v[2]) == 3 and all(x[0] == "sub" and x[2][0] == "const" for x in v[2]):
        ks = [x[2][1] for x in v[2]]
        if ks != [0, 1, 2]:
            ctx.bad("parameter", "%s|%s|slice" % (cls, verb), where, "a slice is loaded from fields %s instead of start, stop, step" % ks)
        else:
            ctx.ok("parameter", "%s: slices" % item)
        return
    for z in sub(v):
        if z[0] == "sub" and z[1][0] == "call" and fname(z[1][1]) == "nodes":
            x = uncast(z[2])
            if x[0] == "elem":
                ctx.ok("parameter", "%s: symbols" % item)
            elif x[0] == "bin":
                ctx.bad("parameter", "%s|%s|id" % (cls, verb), where, "an index symbol is looked up at %s" % ren(x))
            else:
                ctx.undecided("parameter", item)
            return
    if v[0] == "call" and fname(v[1]) == "topological_index":
        ctx.ok("parameter", "%s: symbols" % item)
        return
    if v[0] == "bin" and has(v, lambda z: z[0] == "call" and fname(z[1]) == "topological_index"):
        ctx.bad("parameter", "%s|%s|id" % (cls, verb), where, "an index symbol is saved as %s" % ren(v))
        return
    ctx.ok("parameter", item)


def quadratic(ctx, cls, W, rps, ps, f):
    """the arrays of coefficients"""
    for p, w, odd in W:
        role = {}
        for e, c in flat(p.events):
            if e["k"] == "store" and e["t"][0] == "sub":
                v = strip(e["v"])
                a = strip(e["t"][1])
                r = "linear" if calls_of(v, "get_linear") else "quadratic" if calls_of(v, "get_quadratic") else "coords" if v[0] == "elem" else None
                role.setdefault(a, set()).add(r)
            if e["k"] == "call" and fname(e["f"]) == "get_quadratic" and len(e["args"]) == 3:
                for i, a in enumerate(e["args"]):
                    a = strip(a)
                    if a[0] == "addr" and a[1][0] == "sub":
                        role.setdefault(strip(a[1][1]), set()).add("coords" if i < 2 else "quadratic")
                        ix = a[1][2]
                        if i < 2 and ix[0] == "tuple" and ix[1][0][0] == "const" and ix[1][0][1] != i:
                            ctx.bad("parameter", "%s|rows" % cls, e["l"], "the %s indices of the terms are saved in row %s" % (("first", "second")[i], ix[1][0][1]))
        names = {x.name: role.get(x.value, set()) for x in w}
        for x in w:
            if x.value[0] == "call" and dtype_of(x.value) in NARROW and role.get(x.value, set()) & {"linear", "quadratic"}:
                ctx.bad("parameter", "%s|%s" % (cls, x.name), x.e["l"], "the coefficients are saved as %s" % dtype_of(x.value))
        for q in rps:
            t = uncast(q.end[1])
            b = bind(ps, f, t) if t[0] == "call" else None
            if not b:
                ctx.undecided("parameter", "%s: arguments" % cls)
                continue
            qs = uncast(b.get("quadratic", ("?",)))
            got = [("linear", b.get("linear"))] + ([("quadratic", qs[1][0]), ("coords", qs[1][1])] if qs[0] == "tuple" and len(qs[1]) == 2 else [])
            for r, term in got:
                if term is None:
                    ctx.bad("parameter", "%s|%s" % (cls, r), q.end[2], "loading a %s restores no %s coefficients" % (cls, r))
                    continue
                s = source(term)
                rs = names.get(s[0]) if s else None
                if not rs or None in rs or len(rs) > 1:
                    ctx.undecided("parameter", "%s: %s" % (cls, r))
                elif r in rs:
                    ctx.ok("parameter", "%s: %s" % (cls, r))
                else:
                    ctx.bad("parameter", "%s|%s" % (cls, r), q.end[2], "loading a %s takes its %s part from %s, where saving puts the %s part" % (cls, r, s[0], "/".join(rs)))


def calls_of(t, n):
    return has(t, lambda z: z[0] == "call" and fname(z[1]) == n)


# --------------------------------------------------------------------------- states of symbols
def rule_states(ctx):
    ctx.rule("state-member", "the parts of a saved state that loading reads are those that saving writes", 1)
    ctx.rule("state-index", "a state is saved from, and loaded into, the same position, with all its values", 1)
    ctx.rule("state-sparse", "a state that was not saved is loaded as not initialised", 1)
    L = Layer()
    for cls in L.classes:
        m, d = L.classes[cls]
        if m not in (SYM, MOD) or not {"_state_into_zipfile", "_state_from_zipfile"} & set(d["methods"]):
            continue
        wc, wf = L.method(cls, "_state_into_zipfile")
        rc, rf = L.method(cls, "_state_from_zipfile")
        with ctx.guard("state-index", cls):
            wps = [p for p in PyWalker(super_resolver(L, m, cls)).run(wf) if not p.raises]
            rps = [p for p in PyWalker(super_resolver(L, m, cls)).run(rf) if not p.raises]
            if not wps or not rps:
                continue    # not available for these symbols
            state_io(ctx, cls, wps, rps, wf, rf)


def sets_state(p):
    return [(e, c) for e, c in flat(p.events) if e["k"] == "call" and fname(e["f"]) in ("set_state", "_set_state", "initialize_state")]


def state_io(ctx, cls, wps, rps, wf, rf):
    IDX = ("param", "state_index")
    Ws = [(p,) + writes(p) for p in wps]
    tolerant = False
    for q in rps:
        rs, odd = reads(q)
        ss = sets_state(q)
        exc = any(e["k"] == "except" for e, c in flat(q.events))
        if not ss:
            # no state: only because there is none in the file
            if exc or any(c[0] in pyx.KINDS and (has(c, lambda z: z[0] == "call" and fname(z[1]) in ("namelist", "exists", "getinfo") or z[0] == "attr" and z[2] == "NameToInfo")) for c in q.conds):
                tolerant = True
            elif any(c[0] in pyx.KINDS for c in q.conds):
                ctx.undecided("state-index", "%s: when %s" % (cls, when(q)))
            else:
                ctx.bad("state-index", cls, rf["l"], "loading the state of a %s sets nothing" % cls)
            continue
        for e, c in ss:
            a = e["args"]
            i = strip(a[0]) if a else None
            if i == IDX:
                ctx.ok("state-index", "%s: loaded into the given position" % cls)
            elif i is not None and (i[0] == "const" or i[0] == "bin" and IDX in (i[2], i[3])):
                ctx.bad("state-index", "%s|load" % cls, e["l"], "the state of a %s is loaded into position %s" % (cls, ren(i)))
            else:
                ctx.undecided("state-index", "%s: position loaded" % cls)
        for name, holes, e, c, kind in rs:
            for p, w, wodd in Ws:
                m = [x for x in w if x.name == name or x.name == name.replace("0", "{}")]
                if m or wodd or odd:
                    ctx.ok("state-member", "%s: %s" % (cls, name)) if m else ctx.undecided("state-member", "%s: %s" % (cls, name))
                else:
                    ctx.bad("state-member", "%s|%s" % (cls, name), e["l"], "loading the state of a %s reads %s, which saving does not write%s" % (cls, name, when(p)))
        names = {r[0] for r in rs}
        for p, w, wodd in Ws:
            for x in w:
                if x.name not in names and not odd:
                    ctx.bad("state-member", "%s|%s|unread" % (cls, x.name), x.e["l"], "%s of a %s's state is saved but not loaded" % (x.name, cls))
    for p, w, odd in Ws:
        if not w and not odd:
            conds = [c for c in p.conds if c[0] in pyx.KINDS]
            (ctx.undecided if conds else lambda r, i: ctx.bad(r, "%s|save" % cls, wf["l"], "saving the state of a %s writes nothing" % cls))("state-index", "%s: saving" % cls)
        for x in w:
            its = [e2 for e2, q2 in x.loops]
            idx = [strip(z[2][0]) for z in subs_calls(x, p) if fname(z[1]) in ("state", "view", "array_view") and z[2]]
            for i in idx:
                if i == IDX:
                    ctx.ok("state-index", "%s: saved from the given position" % cls)
                elif i[0] == "const" or i[0] == "bin" and IDX in (i[2], i[3]):
                    ctx.bad("state-index", "%s|save" % cls, x.e["l"], "position %s of a %s is saved" % (ren(i), cls))
                else:
                    ctx.undecided("state-index", "%s: position saved" % cls)
            for z in subs_calls(x, p, all=True):
                dt = dtype_of(z)
                small = cls in ("DisjointBitSets", "BinaryVariable", "DisjointBitSet")
                if dt in NARROW and not small or dt in ("float16", "half") or dt in INTS and cls == "ArraySymbol" and dt not in ("int64", "intp", "int", "int_", "long", "longlong"):
                    ctx.bad("state-index", "%s|dtype" % cls, x.e["l"], "the state of a %s is saved as %s, which cannot hold its values" % (cls, dt))
            for e2, q2 in x.loops:
                if any(r.end[0] == "break" or r.end[0] in ("normal", "continue") and not any(y["k"] == "call" and fname(y["f"]) in ("save", "writestr", "write") for y, _ in flat(r.events)) for r in e2["paths"]):
                    ctx.bad("state-index", "%s|skip" % cls, e2["l"], "some parts of a %s's state are not saved" % cls)
    if tolerant:
        ctx.ok("state-sparse", "%s" % cls)
    else:
        first = None
        for q in rps:
            for name, holes, e, c, kind in reads(q)[0]:
                first = first or e
        if first is not None:
            ctx.bad("state-sparse", cls, first["l"], "loading a %s fails when a state was not initialised and thus not saved" % cls)
        else:
            ctx.undecided("state-sparse", cls)


def subs_calls(x, p, all=False):
    """calls in the written value, looking through comprehensions"""
    return [z for z in sub(x.value) if z[0] == "call" and (all or z[1][0] == "attr")]


# --------------------------------------------------------------------------- the whole file
NN, ND, NS = 7, 3, 2
DIR = None


def content(t):
    s = source(t, None)
    return s[0] if s else None


def valuation(calls, params, terms=None, members=None):
    def val(t):
        if terms:
            v = terms(t)
            if v is not None:
                return v
        if t[0] == "param" and t[1] in params:
            return params[t[1]]
        if t[0] == "call":
            n = fname(t[1])
            if n in calls and t[1][0] == "attr":
                return calls[n]
            if n == "isinstance" and len(t[2]) == 2 and t[2][0] == ("param", "file"):
                return False
            if n == "isinstance" and len(t[2]) == 2 and members is not None:
                try:
                    x = ev(t[2][0], val)
                    ty = t[2][1][1] if t[2][1][0] == "n" else t[2][1][2] if t[2][1][0] == "attr" else None
                    if ty in ("int", "Integral"):
                        return isinstance(x, int)
                except Unknown:
                    pass
            if n == "len" and len(t[2]) == 1:
                try:
                    return len(ev(t[2][0], val))
                except (Unknown, TypeError):
                    pass
            if members is not None:
                c = content(t)
                if c in members:
                    return members[c][1]
                if n == "read" and t[2]:
                    m = member(t[2][0], None)
                    if m and m[0] in members:
                        return members[m[0]][0]
                if n == "get" and t[1][0] == "attr" and t[2] and t[2][0][0] == "const":
                    try:
                        return ev(t[1][1], val)[t[2][0][1]]
                    except (Unknown, KeyError, TypeError):
                        pass
        if t[0] == "sub" and t[2][0] == "const":
            if t[2][1] == "num_states" and "num_states" in calls:
                return calls["num_states"]
            if members is not None:
                try:
                    return ev(t[1], val)[t[2][1]]
                except (Unknown, KeyError, TypeError, IndexError):
                    pass
        return None
    return val


def extent(it, val):
    """(kind, first, end) of what is iterated; raises Unknown"""
    it = uncast(it)
    if it[0] == "call":
        n = fname(it[1])
        if it[1][0] == "n" and n in ("list", "tuple", "iter", "enumerate") and it[2]:
            return extent(it[2][0], val)
        if n == "islice":
            a = [ev(x, val) for x in it[2][1:]]
            k, lo, hi = extent(it[2][0], val)
            if len(a) == 1:
                a = [0] + a
            if len(a) > 2 and a[2] not in (1, None):
                raise Unknown()
            return k, lo + (a[0] or 0), hi if a[1] is None else min(hi, lo + a[1])
        if n == "iter_symbols":
            return "symbols", 0, val(("call", ("attr", ("?",), "num_nodes"), (), ()))
        if n == "iter_decisions":
            return "symbols", 0, val(("call", ("attr", ("?",), "num_decisions"), (), ()))
        if n == "range" and it[1][0] in ("n", "glob"):
            a = [ev(x, val) for x in it[2]]
            if len(a) == 1:
                return "range", 0, a[0]
            if len(a) == 2 or len(a) == 3 and a[2] == 1:
                return "range", a[0], a[1]
        if n == "filter" and len(it[2]) == 2:
            return extent(it[2][1], val)
    raise Unknown()


class Seen:
    def __init__(self, ctx):
        self.ctx, self.done = ctx, set()

    def ok(self, r, i):
        if (r, i) not in self.done:
            self.done.add((r, i))
            self.ctx.ok(r, i)

    def undecided(self, r, i):
        if (r, i, "?") not in self.done:
            self.done.add((r, i, "?"))
            self.ctx.undecided(r, i)

    def bad(self, r, key, where, msg):
        if (r, key, "!") not in self.done:
            self.done.add((r, key, "!"))
            self.ctx.bad(r, key, where, msg)


def decided_false(conds, val):
    return not feasible(conds, val)


def known(conds, val, about):
    """every condition about the given terms is decided (and true)"""
    for c in conds:
        if c[0] in pyx.KINDS and has(c, about):
            try:
                if not ev(c, val):
                    return False
            except Unknown:
                return None
    return True


def cover(S, rule, item, key, loop, val, want, what):
    try:
        k, lo, hi = extent(loop["it"], val)
    except (Unknown, TypeError):
        S.undecided(rule, item)
        return
    if (lo, hi) == (0, want):
        S.ok(rule, item)
    else:
        S.bad(rule, key, loop["l"], "%s: entries %d to %d of %d are covered (%s)" % (what, lo, hi, want, ren(loop["it"])))


def rule_format(ctx):
    ctx.rule("file-symbols", "saving lists every symbol with its type, its operands in order and its own data", 1)
    ctx.rule("file-roles", "the objective and every constraint are saved and loaded as the same symbols", 1)
    ctx.rule("file-states", "every initialised state of every decision is saved and loaded at the same position", 1)
    ctx.rule("file-locked", "a model is saved only while its order is fixed", 1)
    ctx.rule("file-header", "the header has the announced length and parts", 1)
    ctx.rule("file-refused", "ids in a file that do not exist are refused, not followed", 1)
    L = Layer()
    S = Seen(ctx)
    c, wf = L.method("_Graph", "into_file")
    c, rf = L.method("_Graph", "from_file")
    if wf is None or rf is None:
        ctx.undecided("file-symbols", "no into_file/from_file")
        return
    dirs = {}
    with ctx.guard("file-symbols", "into_file"):
        ps = run_paths(ctx, "file-symbols", "into_file", PyWalker(super_resolver(L, MOD, "_Graph")), wf)
        if ps is not None:
            saving(S, ps, wf, dirs)
    with ctx.guard("file-symbols", "from_file"):
        ps = run_paths(ctx, "file-symbols", "from_file", PyWalker(super_resolver(L, MOD, "_Graph")), rf)
        if ps is not None:
            loading(S, ps, rf, dirs)
    with ctx.guard("file-states", "_header_data"):
        header_states(S, L)
    for c2, k in (("States", "from_file"),):
        cc, f = L.method(c2, k)
        if f is not None:
            with ctx.guard("file-refused", "States.from_file"):
                states_file(S, L, f)


def loops_of(p):
    return [(e, c) for e, c in flat(p.events) if e["k"] == "loop" and not e.get("comp")]


def member_of_ctx(t):
    t = uncast(t)
    if t[0] == "ctx":
        t = uncast(t[1])
    if t[0] == "call" and fname(t[1]) == "open" and t[2]:
        m = member(t[2][0], None)
        return m[0] if m else None
    return None


def wraps_order(it):
    """sorted/set/... around what is iterated"""
    it = uncast(it)
    if it[0] == "call" and it[1][0] in ("n", "glob") and it[1][1] in ("sorted", "set", "frozenset", "reversed", "unique") and it[2]:
        return it[1][1]
    if it[0] == "call" and fname(it[1]) == "fromkeys":
        return "fromkeys"
    if it[0] == "call" and it[1][0] in ("n", "glob") and it[1][1] in ("list", "tuple", "iter") and it[2]:
        return wraps_order(it[2][0])
    if it[0] == "sub" and it[2][0] == "slice":
        return "slice"
    return None


def saving(S, ps, f, dirs):
    main = [p for p in ps if any(e["k"] == "call" and fname(e["f"]) == "ZipFile" for e, c in flat(p.events)) and p.end[0] not in ("raise",)]
    obj = object()

    def terms(t):
        if t[0] == "attr" and t[2] == "objective":
            return obj
        return None

    unl = valuation({"is_locked": False}, {}, terms)
    for p in main:
        zi = [i for i, e in enumerate(p.events) if e["k"] == "call" and fname(e["f"]) == "ZipFile"]
        lk = [i for i, e in enumerate(p.events) if e["k"] == "enter" and e["v"][0] == "call" and fname(e["v"][1]) == "lock" or e["k"] == "call" and fname(e["f"]) == "lock"]
        if lk and zi and lk[0] < zi[0] or not feasible(p.conds, unl):
            S.ok("file-locked", "into_file")
        else:
            S.bad("file-locked", "into_file", f["l"], "the file is written although the model may not be locked")
    for only in (False, True):
        stop = ND if only else NN
        calls = {"num_nodes": NN, "num_decisions": ND, "is_locked": True, "num_states": NS}
        val = valuation(calls, {"only_decision": only, "max_num_states": NS}, terms)
        sel = [p for p in main if feasible(p.conds, val)]
        if not sel:
            S.undecided("file-symbols", "into_file(only_decision=%s)" % only)
            continue
        for p in sel:
            save_symbols(S, p, f, val, stop, only, dirs)
            save_roles(S, p, f, calls, only, stop, obj)
            save_states(S, p, f, val, dirs)
            save_header(S, p, f)


def save_symbols(S, p, f, val, stop, only, dirs):
    tag = "decisions only" if only else "all symbols"
    types = adj = own = None
    for e, c in loops_of(p):
        for q in e["paths"]:
            for x, cc in flat(q.events):
                if x["k"] != "call":
                    continue
                if not cc and fname(x["f"]) == "write" and x["f"][0] == "attr":
                    m = member_of_ctx(x["f"][1])
                    if m == "nodetypes.txt":
                        types = e
                    elif m == "adj.adjlist" and not c:
                        adj = e
                if not cc and fname(x["f"]) == "_into_zipfile":
                    own = (e, x)
    for name, lp in (("types", types), ("operands", adj), ("own data", own[0] if own else None)):
        if lp is None:
            S.undecided("file-symbols", "saving %s" % name)
            continue
        cover(S, "file-symbols", "saving %s: %s" % (name, tag), "save|%s" % name, lp, val, stop, "saving the %s of the symbols" % name)
        w = wraps_order(lp["it"])
        if w:
            S.bad("file-symbols", "save|%s|order" % name, lp["l"], "the symbols are saved in the order of %s" % w)
        for q in lp["paths"]:
            if q.end[0] == "break" or q.end[0] == "normal" or q.end[0] == "continue":
                done = [x for x, cc in flat(q.events) if x["k"] == "call" and (fname(x["f"]) == "_into_zipfile" if name == "own data" else fname(x["f"]) == "write") and not cc]
                if not done and feasible(q.conds, val):
                    S.bad("file-symbols", "save|%s|skip" % name, lp["l"], "the %s of some symbols are not saved%s" % (name, when(q)))
                elif q.end[0] == "break":
                    S.bad("file-symbols", "save|%s|break" % name, lp["l"], "saving the %s of the symbols stops early%s" % (name, when(q)))
    if own:
        e, x = own
        m = member(x["args"][1], None) if len(x["args"]) > 1 else None
        if m is None:
            S.undecided("file-symbols", "directory of a symbol")
        else:
            dirs.setdefault("node", (m[0], x["l"]))
            h = m[1]
            if len(h) == 1 and h[0][0] == "call" and fname(h[0][1]) == "topological_index" and uncast(h[0][1][1])[0] == "elem":
                S.ok("file-symbols", "directory of a symbol is its position")
            elif len(h) == 1 and h[0][0] == "pos":
                S.ok("file-symbols", "directory of a symbol is its position")
            else:
                S.undecided("file-symbols", "directory of a symbol")
    if adj is not None:
        inner = [(e, q) for q in adj["paths"] for e in q.events if e["k"] == "loop" and not e.get("comp")]
        comps = [z for q in adj["paths"] for x, cc in flat(q.events) if x["k"] == "call" and fname(x["f"]) == "write" for a in x["args"] for z in sub(a) if z[0] == "comp"]
        if not inner and not comps:
            any_pred = any(x["k"] == "call" and fname(x["f"]) == "iter_predecessors" for q in adj["paths"] for x, cc in flat(q.events))
            if any_pred:
                S.undecided("file-symbols", "operands in order")
            else:
                S.bad("file-symbols", "save|preds", adj["l"], "the operands of the symbols are not saved")
        for e, q in inner:
            it = e["it"]
            w = wraps_order(it)
            if w:
                S.bad("file-symbols", "save|preds|order", e["l"], "the operands of a symbol are saved through %s(), which loses their order or number" % w)
                continue
            if not (it is not None and uncast(it)[0] == "call" and fname(uncast(it)[1]) == "iter_predecessors"):
                S.undecided("file-symbols", "operands in order")
                continue
            for r in e["paths"]:
                n = [x for x, cc in flat(r.events) if x["k"] == "call" and fname(x["f"]) in ("write", "append")]
                if r.end[0] == "break" or r.end[0] in ("normal", "continue") and len(n) == 0:
                    S.bad("file-symbols", "save|preds|skip", e["l"], "some operands of a symbol are not saved%s" % when(r))
                elif len(n) == 1:
                    ids = [z for a in n[0]["args"] for z in sub(a) if z[0] == "call" and fname(z[1]) == "topological_index"]
                    S.ok("file-symbols", "operands in order") if ids else S.undecided("file-symbols", "operands in order")
        for z in comps:
            if any(g[2] for g in z[3]):
                S.bad("file-symbols", "save|preds|filter", adj["l"], "some operands of a symbol are not saved")
            elif any(g[1] is not None and wraps_order(g[1]) for g in z[3]):
                S.bad("file-symbols", "save|preds|order", adj["l"], "the operands of a symbol are not saved in order")
            else:
                S.ok("file-symbols", "operands in order")


def save_roles(S, p, f, calls, only, stop, obj):
    W = writes(p, None)[0]
    for k in sorted({0, stop - 1}):
        def terms(t, k=k):
            if t[0] == "attr" and t[2] == "objective":
                return obj
            if t[0] == "call" and fname(t[1]) == "topological_index" and t[1][0] == "attr" and uncast(t[1][1])[0] == "attr" and uncast(t[1][1])[2] == "objective":
                return k
            return None
        val = valuation(calls, {"only_decision": only}, terms)
        about = lambda z: z[0] == "attr" and z[2] == "objective"
        if feasible(p.conds, val):
            ok = known(p.conds, val, about)
            ws = [w for w in W if w.name == "objective.json"]
            if not ok:
                S.undecided("file-roles", "saving the objective")
            elif not ws:
                S.bad("file-roles", "save|objective", f["l"], "the objective is not saved%s" % when(p))
            else:
                v = ws[0].value
                if v[0] == "const" and not v[1]:
                    S.bad("file-roles", "save|objective", ws[0].e["l"], "the objective is not saved when it is symbol %d of %d" % (k, stop))
                elif v[0] == "call" and fname(v[1]) == "topological_index":
                    S.ok("file-roles", "saving the objective as its position")
                elif v[0] == "bin" or v[0] == "const":
                    S.bad("file-roles", "save|objective", ws[0].e["l"], "the objective is saved as %s" % ren(v))
                else:
                    S.undecided("file-roles", "saving the objective")
        # constraints
        ws = [w for w in W if w.name == "constraints.json"]
        if not ws:
            S.bad("file-roles", "save|constraints", f["l"], "the constraints are not saved%s" % when(p))
            continue
        v = uncast(ws[0].value)
        while v[0] == "call" and v[1][0] == "n" and v[1][1] in ("list", "tuple", "sorted") and v[2]:
            v = uncast(v[2][0])
        o2 = object()

        def elemterms(t, k=k):
            if t[0] == "elem" and has(t[1], lambda z: z[0] == "call" and fname(z[1]) == "iter_constraints"):
                return o2
            if t[0] == "call" and fname(t[1]) == "topological_index" and t[1][0] == "attr" and uncast(t[1][1])[0] == "elem":
                return k
            return terms(t)
        val2 = valuation(calls, {"only_decision": only}, elemterms)
        if v[0] == "comp":
            bad = None
            for g in v[3]:
                for c in g[2]:
                    try:
                        if not ev(c, val2):
                            bad = c
                    except Unknown:
                        bad = "?"
            if bad == "?":
                S.undecided("file-roles", "saving the constraints")
            elif bad is not None:
                S.bad("file-roles", "save|constraints", ws[0].e["l"], "constraint symbol %d of %d is not saved (%s)" % (k, stop, ren(bad)))
            else:
                S.ok("file-roles", "saving the constraints")
            continue
        found = False
        for e, c in loops_of(p):
            if e["it"] is None or not has(e["it"], lambda z: z[0] == "call" and fname(z[1]) == "iter_constraints"):
                continue
            found = True
            if wraps_order(e["it"]) == "slice":
                S.bad("file-roles", "save|constraints|slice", e["l"], "only some of the constraints are saved")
            for q in e["paths"]:
                if not feasible(q.conds, val2):
                    continue
                if known(q.conds, val2, lambda z: z[0] == "elem") is not True:
                    S.undecided("file-roles", "saving the constraints")
                    continue
                n = [x for x, cc in flat(q.events) if x["k"] == "call" and fname(x["f"]) in ("append", "add")]
                if len(n) == 0 or q.end[0] == "break":
                    S.bad("file-roles", "save|constraints", e["l"], "constraint symbol %d of %d is not saved%s" % (k, stop, when(q)))
                elif len(n) == 1 and n[0]["args"]:
                    a = strip(n[0]["args"][0])
                    if a[0] == "bin":
                        S.bad("file-roles", "save|constraints|id", e["l"], "a constraint is saved as %s" % ren(a))
                    else:
                        S.ok("file-roles", "saving the constraints")
        if not found:
            S.undecided("file-roles", "saving the constraints")


def save_states(S, p, f, val, dirs):
    found = False
    for e, c in loops_of(p):
        for q in e["paths"]:
            for x, cc in flat(q.events):
                if x["k"] == "call" and fname(x["f"]) == "_state_into_zipfile" and not cc:
                    if not c:
                        S.undecided("file-states", "saving")
                        continue
                    found = True
                    outer = c[0][0]
                    cover(S, "file-states", "saving: every decision", "save|decisions", outer, val, ND, "saving the states of the decisions")
                    cover(S, "file-states", "saving: every state", "save|states", e, val, NS, "saving the states")
                    position(S, "save", x, dirs)
            # iterations that save nothing
            if any(y["k"] == "call" and fname(y["f"]) == "_state_into_zipfile" for r in e["paths"] for y, _ in flat(r.events)) and not any(y["k"] == "loop" for r in e["paths"] for y in r.events):
                if not any(y["k"] == "call" and fname(y["f"]) == "_state_into_zipfile" for y, _ in flat(q.events)) and q.end[0] in ("normal", "continue", "break"):
                    cs = [k for k in q.conds if k[0] in pyx.KINDS]
                    if q.end[0] == "break":
                        S.bad("file-states", "save|break", e["l"], "states after the first that is not initialised are not saved")
                    elif any(has(k, lambda z: z[0] == "call" and fname(z[1]) == "has_state") and k[0] == "not" for k in cs):
                        S.ok("file-states", "saving: only initialised states")
                    elif not cs:
                        S.bad("file-states", "save|skip", e["l"], "states are not saved")
                    else:
                        S.undecided("file-states", "saving: a state may be left out%s" % when(q))
    if not found and feasible(p.conds, val):
        if known(p.conds, val, lambda z: z[0] in ("sub", "call") and val(z) == NS) is True and not any(e["k"] == "call" and "state" in fname(e["f"]) and fname(e["f"]) not in ("has_state",) for e, c in flat(p.events)):
            S.bad("file-states", "save|none", f["l"], "the states are not saved%s" % when(p))
        else:
            S.undecided("file-states", "saving")


def position(S, verb, x, dirs):
    """directory and position of a state agree"""
    a = x["args"]
    if len(a) != 3:
        S.undecided("file-states", "%s: position" % verb)
        return
    m = member(a[1], None)
    i = strip(a[2])
    if m is None or len(m[1]) != 2:
        S.undecided("file-states", "%s: directory" % verb)
        return
    if m[1][1] == i:
        S.ok("file-states", "%s: directory and position agree" % verb)
    elif m[1][1][0] == "pos" or i[0] == "pos" or m[1][1][0] == "bin" or i[0] == "bin":
        S.bad("file-states", "%s|position" % verb, x["l"], "state %s is %s under the number %s" % (ren(i), "saved" if verb == "save" else "looked for", ren(m[1][1])))
    else:
        S.undecided("file-states", "%s: position" % verb)
    node = strip(x["f"][1]) if x["f"][0] == "attr" else None
    h = m[1][0]
    if h[0] == "call" and fname(h[1]) == "topological_index" and strip(h[1][1]) == node or h[0] == "pos":
        S.ok("file-states", "%s: directory of the symbol" % verb)
    elif h[0] == "bin":
        S.bad("file-states", "%s|directory" % verb, x["l"], "the states of a symbol are under the number %s" % ren(h))
    else:
        S.undecided("file-states", "%s: directory of the symbol" % verb)
    if "state" in dirs and verb == "load":
        if dirs["state"][0] == m[0]:
            S.ok("file-states", "the same directory")
        else:
            S.bad("file-states", "directory", x["l"], "states are saved under %s and looked for under %s" % (dirs["state"][0], m[0]))
    if verb == "save":
        dirs["state"] = (m[0], x["l"])


def save_header(S, p, f):
    seq = []
    for e in p.events:
        if e["k"] == "call" and fname(e["f"]) == "ZipFile":
            break
        if e["k"] == "call" and fname(e["f"]) == "write" and strip(e["f"][1]) == ("param", "file") and e["args"]:
            seq.append(strip(e["args"][0]))
    pk = [i for i, t in enumerate(seq) if t[0] == "call" and fname(t[1]) == "pack" and len(t[2]) == 2]
    if len(pk) != 1:
        S.undecided("file-header", "length")
        return
    total = seq[pk[0]][2][1]
    rest = seq[pk[0] + 1:]

    def summands(t):
        t = uncast(t)
        return summands(t[2]) + summands(t[3]) if t[0] == "bin" and t[1] == "+" else [t]
    want = sorted(map(repr, [y for x in rest for y in summands(x)]))
    lens = []
    for t in summands(total):
        if t[0] == "call" and t[1] == ("n", "len") and len(t[2]) == 1:
            lens += summands(t[2][0])
        else:
            S.undecided("file-header", "length")
            return
    if sorted(map(repr, lens)) == want:
        S.ok("file-header", "length")
    else:
        S.bad("file-header", "length", f["l"], "the announced header length %s is not that of what follows" % ren(total))


# --------------------------------------------------------------------------- loading
def loading(S, ps, f, dirs):
    sel = [p for p in ps if p.end[0] == "return" and any(e["k"] == "call" and fname(e["f"]) == "ZipFile" for e, c in flat(p.events))]
    if not sel:
        S.undecided("file-symbols", "loading")
        return
    for p in sel:
        load_symbols(S, p, f, dirs)
    calls = {"num_nodes": NN, "num_decisions": ND}
    info = {"num_nodes": NN, "num_states": NS}
    for oid, valid in ((0, True), (NN - 1, True), (NN, False), (-1, False)):
        mem = {"objective.json": (str(oid).encode(), oid), "info.json": (b"{", info)}
        val = valuation(calls, {}, None, mem)
        about = lambda z: z[0] == "call" and (content(z) == "objective.json" or fname(z[1]) == "read" and z[2] and (member(z[2][0], None) or ("",))[0] == "objective.json")
        reach = False
        for p in sel:
            if not feasible(p.conds, val):
                continue
            k = known(p.conds, val, about)
            mins = [(e, c) for e, c in flat(p.events) if e["k"] == "call" and fname(e["f"]) in ("minimize", "set_objective")]
            mins = [m for m in mins if any(has(a, about) for a in m[0]["args"])] or mins
            if valid and not mins:
                if k:
                    S.bad("file-roles", "load|objective", f["l"], "an objective that is symbol %d of %d is not loaded%s" % (oid, NN, when_about(p, about)))
                else:
                    S.undecided("file-roles", "loading the objective")
            elif valid:
                a = mins[0][0]["args"][0]
                ix = lookup(a)
                if ix is None:
                    S.undecided("file-roles", "loading the objective")
                elif content(ix) == "objective.json":
                    S.ok("file-roles", "loading the objective")
                elif ix[0] == "bin":
                    S.bad("file-roles", "load|objective|id", mins[0][0]["l"], "the objective is looked up at %s" % ren(ix))
                else:
                    S.undecided("file-roles", "loading the objective")
            elif mins and k:
                S.bad("file-refused", "objective", mins[0][0]["l"], "objective %d of a model with %d symbols is looked up" % (oid, NN))
                reach = True
            elif mins:
                S.undecided("file-refused", "objective")
                reach = True
        if not valid and not reach:
            S.ok("file-refused", "objective %d" % oid)
    for cid, valid in ((0, True), (NN - 1, True), (NN, False), (-1, False)):
        mem = {"info.json": (b"{", info)}

        def terms(t, cid=cid):
            return cid if t[0] == "elem" and content(t[1]) == "constraints.json" else None
        val = valuation(calls, {}, terms, mem)
        found = reach = False
        for p in sel:
            for e, c in loops_of(p):
                if e["it"] is None or not has(e["it"], lambda z: content(z) == "constraints.json"):
                    continue
                found = True
                if content(uncast(e["it"])) != "constraints.json":
                    w = wraps_order(e["it"])
                    if w in ("slice", "set"):
                        S.bad("file-roles", "load|constraints|slice", e["l"], "not every saved constraint is loaded (%s)" % ren(e["it"]))
                    else:
                        S.undecided("file-roles", "loading the constraints")
                    continue
                for q in e["paths"]:
                    if q.end[0] == "raise" or not feasible(q.conds, val):
                        continue
                    k = known(q.conds, val, lambda z: z[0] == "elem")
                    add = [x for x, cc in flat(q.events) if x["k"] == "call" and fname(x["f"]) == "add_constraint"]
                    if valid:
                        if not add and k:
                            S.bad("file-roles", "load|constraints", e["l"], "a constraint that is symbol %d of %d is not loaded%s" % (cid, NN, when(q)))
                        elif not add or not k:
                            S.undecided("file-roles", "loading the constraints")
                        else:
                            ix = lookup(add[0]["args"][0])
                            if ix is not None and ix[0] == "bin":
                                S.bad("file-roles", "load|constraints|id", add[0]["l"], "a constraint is looked up at %s" % ren(ix))
                            else:
                                S.ok("file-roles", "loading the constraints")
                    elif add:
                        reach = True
                        if k:
                            S.bad("file-refused", "constraints", add[0]["l"], "constraint %d of a model with %d symbols is looked up" % (cid, NN))
                        else:
                            S.undecided("file-refused", "constraints")
        if not found:
            S.undecided("file-roles", "loading the constraints")
        elif not valid and not reach:
            S.ok("file-refused", "constraint %d" % cid)
    # states
    val = valuation(calls, {}, None, {"info.json": (b"{", info)})
    for p in sel:
        if not feasible(p.conds, val):
            continue
        load_states(S, p, f, val, dirs)


def when_about(p, about):
    cs = [ren(c) for c in p.conds if c[0] in pyx.KINDS and has(c, about)]
    return " when " + " and ".join(cs) if cs else ""


def lookup(t):
    """X of ...nodes()[X]... or of list(iter_symbols())[X]"""
    for z in sub(t):
        if z[0] == "sub" and uncast(z[1])[0] == "call" and fname(uncast(z[1])[1]) in ("nodes", "list"):
            return uncast(z[2])
    return None


def load_symbols(S, p, f, dirs):
    found = False
    for e, c in loops_of(p):
        for q in e["paths"]:
            mk = [x for x, cc in flat(q.events) if x["k"] == "call" and fname(x["f"]) == "_from_zipfile" and not cc]
            if not mk:
                continue
            found = True
            x = mk[0]
            it = uncast(e["it"]) if e["it"] is not None else ("?",)
            ms = {member_of_ctx(z) for z in sub(it) if z[0] == "ctx"}
            if {"nodetypes.txt", "adj.adjlist"} <= ms:
                S.ok("file-symbols", "loading: types and operands in step")
            else:
                S.undecided("file-symbols", "loading: types and operands in step")
            m = member(x["args"][1], None) if len(x["args"]) > 1 else None
            if m is None or "node" not in dirs:
                S.undecided("file-symbols", "loading: directory")
            elif m[0] != dirs["node"][0]:
                S.bad("file-symbols", "directory", x["l"], "a symbol's data is saved under %s and looked for under %s" % (dirs["node"][0], m[0]))
            elif len(m[1]) == 1 and m[1][0][0] == "bin":
                S.bad("file-symbols", "load|directory", x["l"], "the data of a symbol is looked for under number %s" % ren(m[1][0]))
            else:
                S.ok("file-symbols", "loading: directory")
            kw = {k: v for k, v in (x["kw"].items() if isinstance(x.get("kw"), dict) else x.get("kw") or ())}
            pr = kw.get("predecessors") or (x["args"][3] if len(x["args"]) > 3 else None)
            if pr is None:
                S.bad("file-symbols", "load|preds", x["l"], "a symbol is loaded without its operands")
                continue
            pr = uncast(pr)
            w = wraps_order(pr)
            if w:
                S.bad("file-symbols", "load|preds|order", x["l"], "the operands of a symbol are passed through %s()" % w)
            elif pr[0] == "comp":
                S.bad("file-symbols", "load|preds|filter", x["l"], "some operands of a symbol are left out") if any(g[2] for g in pr[3]) else S.ok("file-symbols", "loading: operands in order")
            inner = [y for y in q.events if y["k"] == "loop" and any(z["k"] == "call" and fname(z["f"]) in ("append", "insert") for r in y["paths"] for z, _ in flat(r.events))]
            for y in inner:
                w = wraps_order(y["it"]) if y["it"] is not None else None
                if w and w != "slice":
                    S.bad("file-symbols", "load|preds|order", y["l"], "the operands of a symbol are loaded through %s()" % w)
                for r in y["paths"]:
                    ap = [z for z, _ in flat(r.events) if z["k"] == "call" and fname(z["f"]) == "append" and lookup(z["args"][0]) is not None]
                    pid = None
                    for r2 in y["paths"]:
                        for z, _ in flat(r2.events):
                            if z["k"] == "call" and fname(z["f"]) == "append" and lookup(z["args"][0]) is not None:
                                pid = lookup(z["args"][0])
                    if pid is None or pid[0] != "elem":
                        if pid is not None and pid[0] == "bin":
                            S.bad("file-symbols", "load|preds|id", y["l"], "an operand is looked up at %s" % ren(pid))
                        else:
                            S.undecided("file-symbols", "loading: operands in order")
                        continue
                    node = [z for c2 in r.conds if c2[0] in pyx.KINDS for z in sub(c2) if z[0] == "sub" and z[2] == ("const", 0)]
                    for v, valid in ((0, True), (4, True), (5, False), (-1, False)):
                        def terms(t, v=v):
                            if t == pid:
                                return v
                            if t in node or t[0] == "pos":
                                return 5
                            return None
                        val = valuation({"num_nodes": 5}, {}, terms)
                        if r.end[0] == "raise" or not feasible(r.conds, val):
                            continue
                        k = known(r.conds, val, lambda z: z == pid)
                        if valid and not ap:
                            S.bad("file-symbols", "load|preds|skip", y["l"], "operand %d of symbol 5 is not loaded%s" % (v, when(r))) if k else S.undecided("file-symbols", "loading: operands in order")
                        elif valid:
                            S.ok("file-symbols", "loading: operands in order")
                        elif ap and k:
                            S.bad("file-refused", "predecessors", ap[0]["l"], "operand %d of symbol 5 is looked up" % v)
                        elif ap:
                            S.undecided("file-refused", "predecessors")
                    S.ok("file-refused", "predecessors") if not any(u[0] == "file-refused" and u[1] == "predecessors" for u in S.done) else None
    if not found:
        S.undecided("file-symbols", "loading")


def load_states(S, p, f, val, dirs):
    found = False
    rz = [(e, c) for e, c in flat(p.events) if e["k"] == "call" and fname(e["f"]) == "resize" and e["args"]]
    for e, c in loops_of(p):
        for q in e["paths"]:
            for x, cc in flat(q.events):
                if x["k"] == "call" and fname(x["f"]) == "_state_from_zipfile" and not cc and c:
                    found = True
                    cover2(S, c[0][0], e, val)
                    position(S, "load", x, dirs)
    if found:
        for e, c in rz:
            try:
                n = ev(e["args"][0], val)
            except Unknown:
                S.undecided("file-states", "loading: number of states")
                continue
            S.ok("file-states", "loading: number of states") if n == NS else S.bad("file-states", "load|resize", e["l"], "%s states are made for %d saved ones" % (n, NS))
        if not rz:
            S.undecided("file-states", "loading: number of states")
    elif known(p.conds, val, lambda z: z[0] in ("sub", "call") and val(z) == NS) is True:
        S.bad("file-states", "load|none", f["l"], "the states are not loaded%s" % "")
    else:
        S.undecided("file-states", "loading")


def cover2(S, a, b, val):
    got = {}
    for lp in (a, b):
        try:
            k, lo, hi = extent(lp["it"], val)
            got[k] = (lo, hi)
        except (Unknown, TypeError):
            S.undecided("file-states", "loading: every state")
            return
    for k, want, w in (("symbols", ND, "decisions"), ("range", NS, "states")):
        if k not in got:
            S.undecided("file-states", "loading: every %s" % w)
        elif got[k] == (0, want) or k == "symbols" and got[k][0] == 0 and got[k][1] >= want:
            S.ok("file-states", "loading: every %s" % w)
        else:
            S.bad("file-states", "load|%s" % w, (a if k == "symbols" else b)["l"], "%s %d to %d of %d are loaded" % (w, got[k][0], got[k][1], want))


def header_states(S, L):
    """number of states saved = min(size, max_num_states)"""
    c, f = L.method("_Graph", "_header_data")
    if f is None:
        S.undecided("file-states", "number saved")
        return
    for size, mx in ((5, 2), (1, 3), (0, 2), (3, 3)):
        def terms(t):
            if t[0] == "call" and fname(t[1]) == "size" and has(t, lambda z: z[0] == "attr" and z[2] == "states"):
                return size
            return None
        val = valuation({}, {"max_num_states": mx, "only_decision": False}, terms)
        for p in PyWalker(super_resolver(L, MOD, "_Graph")).run(f):
            if p.end[0] != "return" or not feasible(p.conds, val) or any(e["k"] == "except" for e, cc in flat(p.events)):
                continue
            try:
                n = ev(field(strip(p.end[1]), "num_states", p), val)
            except (Unknown, Odd, Missing):
                S.undecided("file-states", "number saved")
                continue
            if n == min(size, mx):
                S.ok("file-states", "number saved, %d of %d" % (mx, size))
            else:
                S.bad("file-states", "number", f["l"], "of %d states, at most %d to be saved, %s are saved" % (size, mx, n))


def states_file(S, L, f):
    """states are attached only after the decisions were compared"""
    for p in PyWalker(super_resolver(L, STA, "States")).run(f):
        at = [i for i, e in enumerate(p.events) if e["k"] == "call" and fname(e["f"]) == "attach_states"]
        if p.raises or not at:
            continue
        before = p.events[:at[0]]
        num = any(c[0] in pyx.KINDS and c[0] == "cmp" and c[1] == "==" and all(has(x, lambda z: z[0] == "call" and fname(z[1]) in ("num_decisions",)) for x in c[2:4]) for c in p.conds)
        cmpd = [e for e in before if e["k"] == "loop" and not e.get("comp") and any(x["k"] == "call" and fname(x["f"]) == "equals" for q in e["paths"] for x, cc in flat(q.events))]
        anyeq = has_all_equals(p)
        helper = any(e["k"] == "call" and any(k in fname(e["f"]) for k in ("check", "valid", "compat", "match", "equal")) for e, cc in flat(before))
        if cmpd or anyeq:
            bad = False
            for e in cmpd:
                for q in e["paths"]:
                    if q.end[0] in ("normal", "continue", "break"):
                        eq = [x["t"] for x, cc in flat(q.events) if x["k"] == "call" and fname(x["f"]) == "equals"]
                        if not eq or not any(c == t for t in eq for c in q.conds):
                            if all(c[0] not in pyx.KINDS or not has(c, lambda z: z[0] == "call" and fname(z[1]) == "equals") for c in q.conds) or q.end[0] == "break":
                                bad = True
                        elif q.end[0] == "break":
                            bad = True
            if bad:
                S.bad("file-refused", "states|compare", cmpd[0]["l"], "states of decisions that do not match are accepted")
            elif num or any("strict" in str(e.get("it")) for e in cmpd):
                S.ok("file-refused", "states of other decisions")
            else:
                S.undecided("file-refused", "states: number of decisions")
        elif helper:
            S.undecided("file-refused", "states")
        else:
            S.bad("file-refused", "states", p.events[at[0]]["l"], "states are taken over without comparing the decisions they belong to")


def has_all_equals(p):
    return any(c[0] in pyx.KINDS and has(c, lambda z: z[0] == "comp" and has(z, lambda y: y[0] == "call" and fname(y[1]) == "equals")) for c in p.conds)

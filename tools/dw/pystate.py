"""What the Python layer hands to the library when a state is set (P10), decided from the Cython source.

set_state of a decision is a straight copy: the loops are unrolled over a small abstract array of the
given state, whose elements are only names, and the vector handed to initialize_state must consist of
all of them in order.  Nothing is executed; terms that are not understood leave the obligation undecided.
"""
import itertools
from . import pyx
from .pyrules import Layer, PyWalker, Unknown, ev, flat, fname, ren, strip, uncast, SYM, MOD
from .serial import super_resolver, dtype_of, NARROW

SHAPE = (2, 3)
SIZES = (3,)
WRAP = ("asarray", "array", "flatten", "ravel", "copy", "ascontiguousarray", "astype", "list", "tuple", "sorted", "move", "reshape", "asanyarray")


class Arr:
    """the given state, or a part of it"""

    def __init__(self, path, shape):
        self.path, self.shape = path, shape

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.path, self.shape) == (o.path, o.shape)

    def __hash__(self):
        return hash((self.path, self.shape))

    def at(self, i):
        if not isinstance(i, int) or not self.shape or not 0 <= i < self.shape[0]:
            raise Unknown()
        if len(self.shape) == 2 and isinstance(self.shape[1], tuple):
            return Arr(self.path + (i,), (self.shape[1][i],))
        return Arr(self.path + (i,), self.shape[1:])


class Sim:
    def __init__(self, data, shape):
        self.data, self.shape, self.env, self.vecs = data, shape, {}, {}

    def val(self, t):
        t = uncast(t)
        if t == self.data:
            return Arr((), self.shape)
        if t[0] == "elem" and t in self.env:
            return self.env[t]
        if t[0] == "attr":
            if t[2] in ("size", "shape", "ndim", "T"):
                a = self.term(t[1])
                if isinstance(a, Arr):
                    if any(isinstance(x, tuple) for x in a.shape):
                        raise Unknown()
                    if t[2] == "size":
                        n = 1
                        for s in a.shape:
                            n *= s
                        return n
                    if t[2] == "shape":
                        return a.shape
                    if t[2] == "ndim":
                        return len(a.shape)
                    raise Unknown()
        if t[0] == "call":
            n = fname(t[1])
            if n == "len" and len(t[2]) == 1:
                a = self.term(t[2][0])
                return a.shape[0] if isinstance(a, Arr) and a.shape else len(a)
            if n in WRAP:
                src = t[2][0] if t[2] else t[1][1] if t[1][0] == "attr" else None
                if t[1][0] == "attr" and n in ("flatten", "ravel", "copy", "astype", "reshape") and uncast(t[1][1]) not in (("n", "np"), ("n", "numpy")):
                    src = t[1][1]
                    if n == "reshape" and [uncast(x) for x in t[2]] not in ([("const", -1)], [("un", "-", ("const", 1))]):
                        raise Unknown()
                if src is not None:
                    return self.term(src)
            if n == "size" and len(t[2]) == 0 and t[1][0] == "attr":
                v = self.term(t[1][1])
                if isinstance(v, list):
                    return len(v)
            if n == "isinstance":
                raise Unknown()
        if t[0] == "sub":
            a = self.term(t[1])
            i = self.term(t[2])
            if isinstance(a, Arr):
                for x in (i if isinstance(i, tuple) else (i,)):
                    a = a.at(x)
                return a
            if isinstance(a, tuple) and isinstance(i, int) and -len(a) <= i < len(a):
                return a[i]
            raise Unknown()
        if t[0] == "tuple":
            return tuple(self.term(x) for x in t[1])
        return None

    def term(self, t):
        return ev(t, self.val)

    def seq(self, it):
        it = uncast(it)
        if it[0] == "call":
            n = fname(it[1])
            if n == "range":
                a = [self.term(x) for x in it[2]]
                if all(isinstance(x, int) for x in a):
                    return list(range(*a))
            if n == "enumerate" and len(it[2]) == 1:
                return list(enumerate(self.seq(it[2][0])))
            if n == "zip":
                return list(zip(*[self.seq(x) for x in it[2]]))
            if n == "reversed" and len(it[2]) == 1:
                return list(reversed(self.seq(it[2][0])))
        a = self.term(it)
        if isinstance(a, Arr) and a.shape:
            return [a.at(i) for i in range(a.shape[0])]
        raise Unknown()

    def place(self, t):
        """key of a vector: the local one, or one of its elements"""
        t = uncast(t)
        if t[0] == "new":
            return (t,)
        if t[0] == "sub":
            b = self.place(t[1])
            return b + (self.term(t[2]),) if b is not None else None
        return None

    def run(self, events):
        for e in events:
            if e["k"] == "loop":
                if e.get("c") is not None:
                    raise Unknown()
                for v in self.seq(e["it"]):
                    key = ("elem", e["it"], e["id"])
                    self.env[key] = v
                    self.env[("elem", uncast(e["it"]), e["id"])] = v
                    todo = []
                    for q in e["paths"]:
                        live = True
                        for c in q.conds:
                            if c[0] in pyx.KINDS and not self.term(c):
                                live = False
                                break
                        if live:
                            todo.append(q)
                    if len(todo) != 1:
                        raise Unknown()
                    self.run(todo[0].events)
                    if todo[0].end[0] == "break":
                        break
                    if todo[0].end[0] not in ("normal", "continue"):
                        raise Unknown()
            elif e["k"] == "call" and e["f"][0] == "attr":
                n = e["f"][2]
                p = self.place(e["f"][1]) if uncast(e["f"][1])[0] in ("new", "sub") else None
                if p is None:
                    continue
                if n in ("push_back", "emplace_back", "append") and len(e["args"]) == 1:
                    a = uncast(e["args"][0])
                    if a[0] == "call" and fname(a[1]) == "move" and a[2]:
                        a = uncast(a[2][0])
                    q = self.place(a) if a[0] in ("new", "sub") else None
                    if q is not None and q[0][0] == "new" and (q in self.vecs or any(k[:len(q)] == q for k in self.vecs)):
                        self.vecs.setdefault(p, []).append(list(self.vecs.get(q, [])))
                        self.vecs[q] = []
                    else:
                        self.vecs.setdefault(p, []).append(self.term(e["args"][0]))
                elif n == "resize" and len(e["args"]) == 1:
                    k = self.term(e["args"][0])
                    if self.vecs.get(p):
                        raise Unknown()
                    self.vecs[p] = [None] * k
                elif n == "assign" or n == "insert":
                    raise Unknown()
                elif n == "clear":
                    self.vecs[p] = []
            elif e["k"] in ("store", "set", "w", "setitem") and "t" in e:
                t = uncast(e["t"])
                p = self.place(t) if t[0] == "sub" else None
                if p is not None:
                    v = self.vecs.get(p[:-1])
                    if v is None or not isinstance(p[-1], int) or not 0 <= p[-1] < len(v):
                        raise Unknown()
                    v[p[-1]] = self.term(e["v"] if "v" in e else e["x"])

    def whole(self, p):
        own = self.vecs.get(p, [])
        out = []
        for i, x in enumerate(own):
            if x is None:
                out.append(self.whole(p + (i,)))
            else:
                out.append(x)
        return out


def names(v):
    return [names(x) for x in v] if isinstance(v, list) else v.path if isinstance(v, Arr) else v


def show_names(v):
    if isinstance(v, list):
        return "[" + ", ".join(show_names(x) for x in v) + "]"
    return "x" + ".".join(str(i) for i in v) if isinstance(v, tuple) else str(v)


def rule_pass(ctx):
    ctx.rule("init-passed", "setting a state hands every given value, in order, to the library, for the given state index", 1)
    L = Layer()
    for cls in sorted(L.classes):
        m, d = L.classes[cls]
        if m not in (SYM, MOD) or "set_state" not in d["methods"]:
            continue
        f = d["methods"]["set_state"]
        with ctx.guard("init-passed", cls):
            ps = [p for p in PyWalker(super_resolver(L, m, cls)).run(f) if not p.raises]
            idx = ("param", f["params"][1]["n"] if isinstance(f["params"][1], dict) else f["params"][1][0] if isinstance(f["params"][1], tuple) else f["params"][1])
            data = ("param", f["params"][2]["n"] if isinstance(f["params"][2], dict) else f["params"][2][0] if isinstance(f["params"][2], tuple) else f["params"][2])
            for p in ps:
                one_path(ctx, cls, f, p, idx, data)


def one_path(ctx, cls, f, p, idx, data):
    inits = [(i, e) for i, e in enumerate(p.events) if e["k"] == "call" and fname(e["f"]) == "initialize_state"]
    nested = [e for e, _ in flat(p.events) if e["k"] == "call" and fname(e["f"]) in ("initialize_state", "set_state")]
    if not inits:
        if nested or any(c[0] in pyx.KINDS for c in p.conds):
            ctx.undecided("init-passed", cls)
        else:
            ctx.bad("init-passed", cls + " none", f["l"], "setting the state of a %s gives the library nothing" % cls)
        return
    for i, e in inits:
        if not e["args"]:
            ctx.undecided("init-passed", cls)
            continue
        slot = strip(e["args"][0])
        if slot[0] == "sub" and slot[1][0] == "attr" and slot[1][2] == "_states":
            if slot[2] == idx:
                ctx.ok("init-passed", "%s: the given index" % cls)
            elif slot[2][0] == "const" or slot[2][0] == "bin" and idx in slot[2][2:]:
                ctx.bad("init-passed", cls + " index", e["l"], "the state of a %s is set at %s" % (cls, ren(slot[2])))
            else:
                ctx.undecided("init-passed", "%s: index" % cls)
        else:
            ctx.undecided("init-passed", "%s: index" % cls)
        if len(e["args"]) < 2:
            ctx.bad("init-passed", cls + " none", e["l"], "setting the state of a %s ignores the given values" % cls)
            continue
        for z in pyx_calls(p, e):
            dt = dtype_of(z)
            small = cls in ("DisjointBitSets", "BinaryVariable")
            if dt in NARROW and not (small and dt in ("bool", "bool_")) or dt in ("uint8", "uint16", "uint32", "uint64", "uintp", "uint", "float32"):
                ctx.bad("init-passed", cls + " dtype", e["l"], "the values given for a %s are converted to %s, which cannot hold them all" % (cls, dt))
        a = uncast(e["args"][1])
        while a[0] == "call" and fname(a[1]) == "move" and a[2]:
            a = uncast(a[2][0])
        verdicts = []
        for shape in ((3,), (2, 3), (2, (2, 3))):
            s = Sim(data, shape)
            try:
                s.run(p.events[:i])
                pl = s.place(a)
                if pl is None:
                    raise Unknown()
                got = names(s.whole(pl))
            except (Unknown, TypeError, KeyError, IndexError):
                verdicts.append(None)
                continue
            want = [(k,) for k in range(3)] if len(shape) == 1 else [[(j, k) for k in range(shape[1][j] if isinstance(shape[1], tuple) else 3)] for j in range(2)]
            verdicts.append((got, want))
        vs = [v for v in verdicts if v is not None]
        # of the two shapes only one is meant; the other leaves partial elements
        full = [v for v in vs if all_full(v[0], 1 if v is verdicts[0] else 2)]
        if not full:
            ctx.undecided("init-passed", "%s: values" % cls)
        elif all(g == w for g, w in full):
            ctx.ok("init-passed", "%s: values" % cls)
        else:
            g, w = next((g, w) for g, w in full if g != w)
            ctx.bad("init-passed", cls + " values", e["l"], "for the values %s the library is given %s" % (show_names(w), show_names(g)))


def all_full(v, depth):
    if isinstance(v, list):
        return all(all_full(x, depth) for x in v)
    return isinstance(v, tuple) and len(v) == depth


def pyx_calls(p, e):
    from .pyrules import sub
    out = []
    for x, _ in flat(p.events):
        if x["k"] == "call":
            t = x.get("t")
            if t is not None:
                out += [z for z in sub(t) if z[0] == "call"]
    return out

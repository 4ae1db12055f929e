"""Index geometry: the maps between positions of an array and positions of what is indexed from it, obtained by partial
evaluation of the functions that compute offsets. Only the geometry is known (kinds of indices, shapes, strides); elements
are opaque names, so that what is obtained is a map of positions. Anything else is Unknown, and the rule undecided."""
import itertools

from .facts import program
from .graphp import where
from .txn import NS, short

ITEM = 8


class Unknown(Exception):
    pass


class Outside(Unknown):
    """an access outside of a list whose length is known"""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Obj:
    """an object with known attributes (members and argument-free methods)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.at = kw


class Buffer:
    """elements under opaque names"""

    def __init__(self, name):
        self.name = name


class Cell(dict):
    """an array that is written; reading gives what was written"""


class Ref:
    """an element that has a second name"""

    def __init__(self, b, i):
        self.b, self.i = b, i


class Vec(list):
    """a container that grows and shrinks"""


def trunc_div(a, b):
    if b == 0:
        raise Unknown("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Eval:
    def __init__(self, p, this, steps=200000):
        self.p, self.this, self.steps, self.depth = p, this, steps, 0

    # ---------------------------------------------------------------- functions
    def call(self, f, args):
        self.depth += 1
        if self.depth > 40 or f.get("body") is None:
            raise Unknown("call of %s" % f["q"])
        env = dict(zip((x["id"] for x in f["params"] if "id" in x), args))
        if len(env) != len(f["params"]):
            env = {x["n"]: a for x, a in zip(f["params"], args)}
        if any(x["t"].rstrip().endswith("&") and not x["t"].startswith("const ") and isinstance(a, (int, tuple)) and not isinstance(a, bool)
               for x, a in zip(f["params"], args)):
            raise Unknown("a number passed by reference")
        env["#names"] = {x["n"]: a for x, a in zip(f["params"], args)}
        try:
            self.stmt(f["body"], env)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- statements
    def stmt(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown("too long")
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x, env)
            return
        k = s.get("k")
        if k in ("seq", "block"):
            for x in s["b"]:
                self.stmt(x, env)
        elif k == "decl":
            for v in s["b"]:
                if v.get("k") == "var":
                    env[v["id"]] = (self.bind(v["init"], env) if "&" in str(v.get("t")) else self.ev(v["init"], env)) if v.get("init") is not None else 0
        elif k == "expr":
            self.ev(s["e"], env, drop=True)
        elif k == "if":
            if s.get("init") is not None:
                self.stmt(s["init"], env)
            if self.truth(self.ev(s["c"], env)):
                self.stmt(s.get("x"), env)
            else:
                self.stmt(s.get("y"), env)
        elif k in ("for", "while"):
            if s.get("init") is not None:
                self.stmt(s["init"], env)
            while s.get("c") is None or self.truth(self.ev(s["c"], env)):
                self.steps -= 1
                if self.steps < 0:
                    raise Unknown("too long")
                try:
                    self.stmt(s["b"], env)
                except Break:
                    break
                except Continue:
                    pass
                if s.get("inc") is not None:
                    inc = s["inc"]
                    self.stmt(inc, env) if inc.get("k") in ("expr", "seq") else self.ev(inc, env)
        elif k == "ret":
            raise Return(self.ev(s["e"], env) if s.get("e") is not None else None)
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k in ("null", "empty"):
            return
        else:
            raise Unknown("statement %s" % k)

    def bind(self, e, env):
        """what a reference refers to"""
        while e.get("k") in ("cast", "icast", "paren", "full"):
            e = e["e"]
        k = e.get("k")
        if k == "sub" or k == "opcall" and e.get("op") == "[]":
            b, i = (e["a"][0], e["a"][1]) if k == "opcall" else (e["b"], e["i"])
            b, i = self.ev(b, env), self.num(self.ev(i, env))
            v = self.at(b, i)
            return v if isinstance(v, (Obj, list, Cell, Buffer)) else Ref(b, i)
        v = self.ev(e, env)
        if isinstance(v, (Obj, list, Cell, Buffer)) or v is None or k in ("lit", "bin", "ctor", "construct", "cond", "tempobj"):
            return v
        raise Unknown("a reference")

    def truth(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        raise Unknown("condition")

    # ---------------------------------------------------------------- expressions
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        raise Unknown("number")

    def lit(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return v
        t = str(v)
        if t in ("true", "false"):
            return t == "true"
        if t in ("nullptr", "null"):
            return None
        try:
            return int(t.rstrip("uUlL"))
        except ValueError:
            raise Unknown("literal")

    def ev(self, e, env, drop=False):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown("too long")
        if e is None:
            return None
        k = e.get("k")
        if k == "lit":
            return self.lit(e["v"])
        if k in ("cast", "icast", "paren", "tmp", "bindtmp", "full"):
            return self.ev(e["e"], env, drop)
        if k == "this":
            return self.this
        if k in ("null", "nullptr"):
            return None
        if k == "ref":
            if e.get("id") in env:
                v = env[e["id"]]
                return self.at(v.b, v.i) if isinstance(v, Ref) else v
            if e.get("n") in env.get("#names", {}) and e.get("dk") == "param":
                return env["#names"][e["n"]]
            raise Unknown("name %s" % e.get("n"))
        if k == "mem":
            b = self.ev(e["b"], env)
            if isinstance(b, Obj) and e["n"] in b.at:
                return b.at[e["n"]]
            if isinstance(b, tuple) and e["n"] in ("first", "second"):
                return b[0 if e["n"] == "first" else 1]
            raise Unknown("member %s" % e["n"])
        if k == "bin":
            op = e["op"]
            if op == "&&":
                return self.truth(self.ev(e["x"], env)) and self.truth(self.ev(e["y"], env))
            if op == "||":
                return self.truth(self.ev(e["x"], env)) or self.truth(self.ev(e["y"], env))
            if op == ",":
                self.ev(e["x"], env)
                return self.ev(e["y"], env)
            return self.op2(op, self.ev(e["x"], env), self.ev(e["y"], env))
        if k == "un":
            op = e["op"]
            if op in ("++", "--"):
                v = self.num(self.ev(e["e"], env))
                n = v + (1 if op == "++" else -1)
                self.store(e["e"], n, env)
                return v if e.get("post") else n
            v = self.ev(e["e"], env)
            if op == "!":
                return not self.truth(v)
            if op == "-":
                return -self.num(v)
            if op == "+":
                return self.num(v)
            if op in ("*", "&") and isinstance(v, (Obj, list)):
                return v
            raise Unknown("operator %s" % op)
        if k == "assign":
            op = e["op"]
            v = self.ev(e["y"], env)
            if op != "=":
                v = self.op2(op[:-1], self.ev(e["x"], env), v)
            self.store(e["x"], v, env)
            return v
        if k == "cond":
            return self.ev(e["x" if self.truth(self.ev(e["c"], env)) else "y"], env)
        if k == "sub":
            return self.at(self.ev(e["b"], env), self.ev(e["i"], env))
        if k == "opcall":
            if e.get("op") == "[]":
                return self.at(self.ev(e["a"][0], env), self.ev(e["a"][1], env))
            if e.get("op") in ("=", "+=", "-=", "*="):
                v = self.ev(e["a"][1], env)
                if e["op"] != "=":
                    v = self.op2(e["op"][:-1], self.ev(e["a"][0], env), v)
                self.store(e["a"][0], v, env)
                return v
            if e.get("op") in ("==", "!=", "<", "<=", ">", ">=", "+", "-"):
                return self.op2(e["op"], self.ev(e["a"][0], env), self.ev(e["a"][1], env))
            if e.get("op") in ("->", "*") and len(e["a"]) == 1:
                return self.ev(e["a"][0], env)
            raise Unknown("operator %s" % e.get("op"))
        if k == "mcall":
            return self.method(e, env)
        if k == "call":
            return self.free(e, env)
        if k in ("ctor", "construct", "new", "init", "tempobj"):
            a = [self.ev(x, env) for x in e.get("a") or []]
            if len(a) == 1:
                return a[0]
            if len(a) == 3 and "Update" in str(e.get("t", "") or e.get("f", "")):
                return ("upd",) + tuple(a)
            if len(a) == 2 and "pair" in str(e.get("t", "") or e.get("f", "")):
                return tuple(a)
            if len(a) == 2 and isinstance(a[0], list) and isinstance(a[1], int):
                return a[0][:a[1]]
        raise Unknown("expression %s" % k)

    def op2(self, op, a, b):
        if op in ("==", "!=") and not (isinstance(a, int) and isinstance(b, int)):
            if a is None or b is None or isinstance(a, Obj) and isinstance(b, Obj):
                return (a is b) == (op == "==")
            raise Unknown("comparison")
        a, b = self.num(a), self.num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return trunc_div(a, b)
        if op == "%":
            return a - b * trunc_div(a, b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        raise Unknown("operator %s" % op)

    def at(self, b, i):
        i = self.num(i)
        if isinstance(b, list):
            if not 0 <= i < len(b):
                raise Outside("entry %d of %d" % (i, len(b)))
            return b[i]
        if isinstance(b, Buffer):
            return (b.name, i)
        if isinstance(b, Cell):
            return b.get(i)
        raise Unknown("subscript of %s" % type(b).__name__)

    def store(self, x, v, env):
        while x.get("k") in ("cast", "paren"):
            x = x["e"]
        k = x.get("k")
        if k == "ref" and x.get("id") in env:
            r = env[x["id"]]
            if isinstance(r, Ref):
                if not isinstance(r.b, (Cell, Vec)):
                    raise Unknown("assignment")
                r.b[r.i] = v
            else:
                env[x["id"]] = v
            return
        if k == "ref" and x.get("n") in env.get("#names", {}):
            env["#names"][x["n"]] = v
            return
        if k in ("opcall", "sub"):
            b, i = (x["a"][0], x["a"][1]) if k == "opcall" else (x["b"], x["i"])
            b, i = self.ev(b, env), self.num(self.ev(i, env))
            if isinstance(b, Vec) and not 0 <= i < len(b):
                raise Outside("entry %d of %d" % (i, len(b)))
            if isinstance(b, Cell) or isinstance(b, list) and 0 <= i < len(b):
                b[i] = v
                return
        raise Unknown("assignment")

    def body(self, f):
        return next((g for g in self.p.byid.get(f["id"], []) if g.get("body") is not None), None)

    def method(self, e, env):
        o, n, f = self.ev(e["o"], env), e["f"]["n"], e["f"]
        if isinstance(o, Obj):
            if n in o.at and not e["a"]:
                return o.at[n]
            if n in o.at and n in ("size", "shape", "buff"):
                return o.at[n]
            if o is self.this and self.body(f) is not None:
                return self.call(self.body(f), [self.ev(x, env) for x in e["a"]])
            if n == "get" and not e["a"]:
                return o
        if isinstance(o, Vec):
            if n in ("push_back", "emplace_back"):
                a = [self.ev(x, env) for x in e["a"]]
                o.append(a[0] if len(a) == 1 else ("upd",) + tuple(a))
                return o[-1]
            if n == "pop_back":
                if not o:
                    raise Outside("the last of no elements")
                o.pop()
                return None
            if n == "reserve":
                return None
            if n in ("back", "front") and not o:
                raise Outside("the last of no elements")
            if n == "at":
                return self.at(o, self.ev(e["a"][0], env))
        if isinstance(o, (list, Cell)):
            if n in ("size", "ssize"):
                return len(o)
            if n == "empty":
                return not len(o)
            if n in ("data", "get", "begin") and isinstance(o, list):
                return o
            if n == "front" and o:
                return o[0]
            if n == "back" and o:
                return o[-1]
        raise Unknown("method %s" % n)

    def free(self, e, env):
        f = e.get("f")
        if not isinstance(f, dict):
            raise Unknown("call")
        n, q = f["n"], f.get("q", "")
        if n == "holds_alternative":
            v = self.ev(e["a"][0], env)
            if not isinstance(v, Obj):
                raise Unknown("alternative")
            return (v.kind == "slice") == ("Slice" in f["ta"][0])
        if n == "get" and q.startswith("std::"):
            return self.ev(e["a"][0], env)
        if n in ("make_pair", "pair"):
            return tuple(self.ev(x, env) for x in e["a"])
        if n in ("min", "max") and len(e["a"]) == 2:
            a, b = (self.num(self.ev(x, env)) for x in e["a"])
            return min(a, b) if n == "min" else max(a, b)
        if "Update::placement" in q or "Update::removal" in q:
            i, v = (self.ev(x, env) for x in e["a"])
            return ("upd", i, None, v) if n == "placement" else ("upd", i, v, None)
        if n in ("move", "forward", "as_const", "ssize", "size") and len(e["a"]) == 1:
            v = self.ev(e["a"][0], env)
            return len(v) if n in ("ssize", "size") else v
        g = self.body(f)
        if g is not None and g.get("repo"):
            return self.call(g, [self.ev(x, env) for x in e["a"]])
        raise Unknown("call of %s" % q)


# --------------------------------------------------------------------------- geometries of advanced indexing
def contiguous(shape):
    out, s = [], ITEM
    for n in reversed(shape):
        out.insert(0, s)
        s *= n
    return out


def geometries():
    """(index kinds, shape of the array, length of the index arrays or None): every pattern of up to four axes"""
    dims = (2, 3, 2, 3)
    for nd in range(1, 5):
        for kinds in itertools.product("AS", repeat=nd):
            if "A" not in kinds:
                continue
            for length in ((2, None) if nd < 4 else (2,)):
                yield kinds, dims[:nd], length


def separated(kinds):
    t = "".join(kinds).strip("S")
    return "S" in t


class Geometry:
    """the members of an AdvancedIndexingNode of the given pattern, from the definition of indexing"""

    def __init__(self, kinds, shape, length):
        self.kinds, self.shape, self.length = kinds, list(shape), length
        adim = 0 if length is None else 1
        first = kinds.index("A")
        front = separated(kinds) or first == 0 or adim == 0
        out, self.axis = [], {}
        if front:
            out += [length] * adim
        for d, k in enumerate(kinds):
            if k == "S":
                self.axis[d] = len(out)
                out.append(shape[d])
            elif d == first and not front:
                out += [length] * adim
        self.out = out
        self.front = front
        self.arrpos = 0 if front else first
        so = contiguous(out)
        sub = (so[0] * out[0] if out else ITEM) if adim == 0 else so[self.arrpos]
        arr = Obj("array", ndim=len(shape), shape=list(shape), strides=contiguous(shape), itemsize=ITEM, buff=Buffer("a"),
                  size=_prod(shape), dynamic=False)
        self.index = Obj("index", ndim=adim, shape=[length] * adim, dynamic=False, size=1 if length is None else length)
        self.arr, self.so, self.sub = arr, so, sub
        idx = [self.index if k == "A" else Obj("slice", empty=True) for k in kinds]
        items = [s // ITEM for s in contiguous(shape)]
        self.this = Obj("this", array_ptr_=arr, ndim_=len(out), strides_=so, shape_=out, array_item_strides_=items, indices_=idx,
                        indexing_arrays_ndim_=adim, bullet1mode_=front, first_array_index_=first, subspace_stride_=sub, size_=_prod(out),
                        ndim=len(out), strides=so, shape=out, itemsize=ITEM, array_item_strides=items, dynamic=False)

    def __str__(self):
        return "[%s]" % ", ".join("i" if k == "A" else ":" for k in self.kinds) + (" with scalar indices" if self.length is None else "")

    def contig0(self):
        return contiguous(self.shape)[0] // ITEM

    def inner(self, off):
        """what one index selects within one row: (position within the row's part, place in the array without the row)"""
        st = [s // ITEM for s in contiguous(self.shape)]
        sd = [d for d, k in enumerate(self.kinds) if k == "S" and d > 0]
        for ss in itertools.product(*(range(self.shape[d]) for d in sd)):
            yield sum(s * self.so[self.axis[d]] // ITEM for s, d in zip(ss, sd)), off + sum(s * st[d] for s, d in zip(ss, sd))

    def offsets(self):
        """each choice of index values: (offset in elements, positions that are selected, as {subspace position: array position})"""
        st = [s // ITEM for s in contiguous(self.shape)]
        ad = [d for d, k in enumerate(self.kinds) if k == "A"]
        sd = [d for d, k in enumerate(self.kinds) if k == "S"]
        for vs in itertools.product(*(range(self.shape[d]) for d in ad)):
            off = sum(v * st[d] for v, d in zip(vs, ad))
            m = {}
            for ss in itertools.product(*(range(self.shape[d]) for d in sd)):
                m[sum(s * self.so[self.axis[d]] // ITEM for s, d in zip(ss, sd))] = off + sum(s * st[d] for s, d in zip(ss, sd))
            yield off, m


def _prod(x):
    r = 1
    for v in x:
        r *= v
    return r


def calls_in(e, ok):
    if isinstance(e, dict):
        if e.get("k") in ("call", "mcall") and isinstance(e.get("f"), dict) and ok(e["f"]):
            yield e
        for v in e.values():
            yield from calls_in(v, ok)
    elif isinstance(e, list):
        for v in e:
            yield from calls_in(v, ok)


def reached(s, e, G):
    """is this call under a branch that this geometry takes?  (conditions that are not known count as taken)"""
    if s is e:
        return True
    if isinstance(s, dict):
        if s.get("k") == "if":
            try:
                ev = Eval(program(), G.this)
                taken = ev.truth(ev.ev(s["c"], {}))
            except Unknown:
                taken = None
            return (taken is not False and reached(s.get("x"), e, G)) or (taken is not True and reached(s.get("y"), e, G)) or reached(s["c"], e, G)
        return any(reached(v, e, G) for v in s.values())
    if isinstance(s, list):
        return any(reached(v, e, G) for v in s)
    return False


def rule_maps(ctx):
    R = "index-maps"
    ctx.rule(R, "what advanced indexing selects at first is what the definition of indexing says, and a change of the indexed array is passed on to "
             "the place that shows the changed element (both maps are obtained by partial evaluation, for every pattern of up to four axes)", minimum=1)
    p = program()
    cls = NS + "AdvancedIndexingNode"
    ms = {f["n"]: f for f in p.methods_of(cls) if f.get("body") is not None and f["n"] in ("initialize_state", "propagate") and len(f["params"]) == 1}
    if len(ms) < 2:
        ctx.undecided(R, "AdvancedIndexingNode: initialize_state or propagate not found")
        return
    # the initial selection: a method of the node that is given the data, an offset and the number of the index
    fwd = None
    for e in calls_in(ms["initialize_state"]["body"], lambda f: True):
        g = next((g for g in p.byid.get(e["f"]["id"], []) if g.get("body") is not None and g.get("cls") == cls), None)
        if g is not None and any("std::vector<double>" in x["t"] for x in g["params"]) and len(g["params"]) == 4:
            fwd = (e, g)
    # the inverse: what gives a pair of positions
    inv = []
    for e in calls_in(ms["propagate"]["body"], lambda f: True):
        g = next((g for g in p.byid.get(e["f"]["id"], []) if g.get("body") is not None and g.get("repo")), None)
        if g is not None and "pair<" in str(g.get("rt")) and "long" in str(g.get("rt")):
            inv.append((e, g))
    for geo in geometries():
        G = Geometry(*geo)
        what = "AdvancedIndexingNode %s" % G
        try:
            if fwd is None:
                raise Unknown("the initial selection was not found")
            forward(ctx, R, p, G, fwd, what)
        except Outside as u:
            ctx.bad(R, "select %s" % G, where(fwd[1]), "%s: the initial selection reads %s of a shape or of strides" % (what, u))
        except Unknown as u:
            ctx.undecided(R, "%s: initial selection (%s)" % (what, u))
        try:
            if not inv:
                raise Unknown("the place of a changed element was not found")
            for e, g in inv:
                if not reached(ms["propagate"]["body"], e, G):
                    continue
                inverse(ctx, R, p, G, e, g, what)
        except Outside as u:
            ctx.bad(R, "place %s" % G, where(g), "%s: the place of a changed element is computed from %s of a shape or of strides" % (what, u))
        except Unknown as u:
            ctx.undecided(R, "%s: place of a changed element (%s)" % (what, u))


def forward(ctx, R, p, G, fwd, what):
    e, g = fwd
    for k in range(G.length or 1):
        for off, want in G.offsets():
            cell = Cell()
            args = []
            nums = [off, k]
            for x in g["params"]:
                t = x["t"]
                if "vector<double>" in t:
                    args.append(cell)
                elif "State" in t or "unique_ptr" in t:
                    args.append(Obj("state"))
                elif nums:
                    args.append(nums.pop(0))
                else:
                    raise Unknown("parameters")
            Eval(p, G.this).call(g, args)
            base = k * (G.so[G.arrpos] // ITEM if G.length is not None else 0)
            exp = {base + d: ("a", a) for d, a in want.items()}
            if any(v is not None and not (isinstance(v, tuple) and v[0] == "a") for v in cell.values()):
                raise Unknown("elements")
            if dict(cell) != exp:
                bad = next(d for d in sorted(set(exp) | set(cell)) if exp.get(d) != cell.get(d))
                ctx.bad(R, "select %s" % G, where(g), "%s: index %d, position %d is filled with %s, but indexing selects %s"
                        % (what, k, bad, cell.get(bad), exp.get(bad)))
                return
    ctx.ok(R, "%s: initial selection" % what)


def rule_fill(ctx):
    R = "index-records"
    ctx.rule(R, "each way of filling in the elements of one index (changed, appended, removed) records what it does: the records, replayed over the "
             "elements before, give the elements after", minimum=0)
    p = program()
    cls = NS + "AdvancedIndexingNode"
    seen = set()
    for f in p.methods_of(cls):
        ts = [x["t"] for x in f["params"]]
        longs = sum(t.replace("const ", "") == "long" for t in ts)
        if f.get("body") is None or not any("vector<double> &" in t for t in ts) or not any("Update> &" in t for t in ts) or longs not in (2, 3) \
                or not all(t.replace("const ", "") == "long" or "vector<double> &" in t or "Update> &" in t or "State" in t or "unique_ptr" in t for t in ts):
            continue
        key = (f["n"], tuple(f.get("ta") or ()), longs)
        if key in seen:
            continue
        seen.add(key)
        name = "%s<%s>" % (short(f["q"]), ", ".join(f.get("ta") or ()))
        verdicts, und = {}, None
        for geo in geometries():
            G = Geometry(*geo)
            if G.length is None:
                continue
            if longs == 3 and (G.front or not "".join(G.kinds).startswith("SA") or "".join(G.kinds).rstrip("S").count("S") != 1):
                continue
            for mode in ("change", "append", "remove"):
                if mode != "change" and longs == 2 and G.arrpos != 0:
                    continue
                try:
                    r = fill_scenario(p, f, G, mode, longs)
                except Outside as u:
                    r = "reads %s" % u
                except Unknown as u:
                    und = str(u)
                    break
                old = verdicts.setdefault(mode, [0, None])
                if r is None:
                    old[0] += 1
                else:
                    old[1] = old[1] or "%s: %s" % (G, r)
            if und:
                break
        if und:
            ctx.undecided(R, "%s: %s" % (name, und))
        elif any(n and b is None for n, b in verdicts.values()):
            ctx.ok(R, "%s: %s" % (name, ", ".join(m for m, (n, b) in verdicts.items() if n and b is None)))
        elif verdicts:
            # the way that works for most patterns is the one that is meant
            m = max(verdicts, key=lambda m: verdicts[m][0])
            best = verdicts[m]
            why = "; ".join("%s an index, %s" % ({"change": "changing", "append": "appending", "remove": "removing"}[m], b) for m, (n, b) in verdicts.items()
                            if best[0] == 0 or verdicts[m] is best)
            ctx.bad(R, name, where(f), "%s is right for no kind of change: %s" % (name, why[:600]))


def fill_scenario(p, f, G, mode, longs):
    """None when the records and the elements are right, else what is wrong"""
    sub = G.sub // ITEM
    row = G.so[0] // ITEM if longs == 3 else 0
    for k in range(G.length):
        for off, want in G.offsets():
            if longs == 3:
                # the part of the index in one row: what lies at the row's places
                r = G.shape[0] - 1
                first = G.contig0()
                exp = {k * sub + r * row + d: ("a", first * r + a) for d, a in G.inner(off)}
            else:
                exp = {k * sub + d: ("a", a) for d, a in want.items()}
            lo, hi = min(exp), max(exp) + 1
            if mode != "change" and hi - lo != len(exp):
                continue
            before = Vec(("old", j) for j in range(_prod(G.out) if mode == "change" else lo if mode == "append" else hi))
            data, log = Vec(before), Vec()
            args, nums = [], [r, off, k] if longs == 3 else [off, k]
            for x in f["params"]:
                t = x["t"]
                args.append(data if "vector<double>" in t else log if "Update>" in t else nums.pop(0) if t.replace("const ", "") == "long" else Obj("state"))
            Eval(p, G.this).call(f, args)
            after = Vec(before)
            if mode == "change":
                for d, a in exp.items():
                    after[d] = a
            elif mode == "append":
                after.extend(exp[d] for d in range(lo, hi))
            else:
                del after[lo:]
            if list(data) != list(after):
                i = next((i for i, (x, y) in enumerate(zip(data, after)) if x != y), None)
                return "%d elements instead of %d" % (len(data), len(after)) if i is None else "position %d holds %s instead of %s" % (i, data[i], after[i])
            now = Vec(before)
            for u in log:
                if not (isinstance(u, tuple) and len(u) == 4 and u[0] == "upd" and isinstance(u[1], int)):
                    raise Unknown("a record")
                _, i, old, new = u
                if old is None and new is not None:
                    if i != len(now):
                        return "an element is recorded as appended at %d after %d elements" % (i, len(now))
                    now.append(new)
                elif new is None and old is not None:
                    if i != len(now) - 1 or now[-1] != old:
                        return "an element is recorded as removed at %d of %d elements" % (i, len(now))
                    now.pop()
                elif not 0 <= i < len(now):
                    return "a change at %d of %d elements is recorded" % (i, len(now))
                elif now[i] != old:
                    return "the old value recorded for position %d is not the one it held" % i
                else:
                    now[i] = new
            if list(now) != list(after):
                return "a change of the elements is not recorded"
    return None


def inverse(ctx, R, p, G, e, g, what):
    for off, want in G.offsets():
        for d, a in want.items():
            ev = Eval(p, G.this)
            args = []
            for x in e["a"]:
                args.append(argument(ev, x, G, a))
            r = ev.call(g, args)
            if not (isinstance(r, tuple) and len(r) == 2):
                raise Unknown("result")
            if r != (off, d):
                ctx.bad(R, "place %s" % G, str(e.get("l") or where(g)), "%s: the element at %d of the array is shown at offset %d, position %d, but a change of it is passed on to offset %s, position %s"
                        % (what, a, off, d, r[0], r[1]))
                return
    ctx.ok(R, "%s: place of a changed element" % what)


def argument(ev, x, G, a):
    """an argument at the call: a member or query of the node, a local name for the array's strides, or the index of the update"""
    y = x
    while y.get("k") in ("cast", "paren") or y.get("k") in ("ctor", "construct") and len(y.get("a") or []) == 1:
        y = y["e"] if "e" in y else y["a"][0]
    if y.get("k") == "mem" and y.get("n") == "index":
        return a
    if y.get("k") == "ref":
        if "span" in str(y.get("t")) or "span" in str(x.get("t")):
            return G.arr.at["strides"]
        return a
    return ev.ev(y, {})


# --------------------------------------------------------------------------- an array and its inverse
def norm(t):
    """without epochs, and without conversions between numbers"""
    if isinstance(t, tuple):
        if t and t[0] in ("load", "size") and len(t) == 3 and isinstance(t[2], int):
            return (t[0], norm(t[1]))
        if t and t[0] == "app" and t[1] == "toint":
            a = t[3] if len(t) > 3 else t[2]
            while isinstance(a, tuple) and len(a) == 1:
                a = a[0]
            return norm(a)
        if t and t[0] == "toint":
            return norm(t[-1])
        return tuple(norm(x) for x in t)
    return t


def inverse_pairs(p):
    """(class, array of numbers, map from number to the positions that hold it, flag)"""
    for cls in sorted({f[0]["cls"] for f in p.byid.values() if f[0].get("cls", "") and str(f[0]["cls"]).endswith("Data")}):
        own = [x for c, x in p.fields(cls) if c == cls]
        maps = [x for x in own if "map<long, std::vector<long>" in x["t"]]
        if len(maps) != 1:
            continue
        touched = {}
        arrs = [x["n"] for x in own if x["t"] == "std::vector<long>" and not x.get("mutable")]
        if len(arrs) == 1:
            flags = [x["n"] for x in own if x["t"].replace("const ", "") == "bool"]
            yield cls, arrs[0], maps[0]["n"], flags


class Scope:
    """one path (or one pass of a loop): what it does to the array and to the map"""

    def __init__(self, X, Rm, events, conds, diff=None):
        self.bad, self.unknown, self.adds, self.dels, self.want = None, None, [], [], []
        L = self.L = ("mem", ("this",), X)
        M = ("mem", ("this",), Rm)
        conds = [norm(c) for c in conds]
        moved = []
        for e in events:
            loc = norm(e.loc) if isinstance(e.loc, tuple) else None
            val = norm(e.val) if isinstance(e.val, tuple) else e.val
            if e.k == "loop":
                if any(mentions(norm(x.loc), (L, M)) for r in e.x.get("paths") or [] for x in r.events if isinstance(x.loc, tuple)) and diff is None:
                    self.unknown = "a loop"
                continue
            if loc is None:
                if e.k == "call":
                    self.unknown = "a call"
                elif e.k not in ("init", "decl") and mentions(norm(tuple(e.x.get("args") or ()) + (val,)), (M, ("load", M))):
                    self.unknown = "the map is changed by %s" % (e.x.get("name") or e.k)
                continue
            if e.k == "w" and loc[0] == "idx" and loc[1] == L:
                self.want.append(("set", loc[2], norm(e.old) if isinstance(e.old, tuple) else ("load", loc), val))
            elif e.k == "push" and loc == L:
                self.want.append(("add", norm(e.x.get("at")), None, val))
            elif e.k == "cont" and loc == L and e.x.get("m") == "pop_back":
                self.want.append(("del", norm(e.x.get("at")), norm(e.old), None))
            elif e.k == "cont" and loc == L:
                if diff is None and e.x.get("m") != "resize":
                    self.unknown = "the array is %s" % e.x.get("m")
            elif loc[0] == "idx" and loc[1] == M and e.k == "push":
                self.adds.append((loc[2], val))
            elif e.k == "w" and any(s[0] == "app" and s[1] == "find" and mentions(s, (M,)) and len(flatten(s)) >= 2 for s in subs(loc)):
                moved.append((loc, val))
            elif e.k == "cont" and loc == M:
                if e.x.get("m") != "erase":
                    self.unknown = "the map is %s" % e.x.get("m")
                else:
                    empty = any(c[0] == "not" and any(s == ("size", v) for s in subs(c) for v in [d[2] for d in self.dels]) for c in conds) or \
                        any(c[0] == "cmp" and c[1] == "eq" and any(s == ("size", v) for s in subs(c) for v in [d[2] for d in self.dels]) for c in conds)
                    if not empty and not any(s[0] == "size" and s[1] == d[2] or s[0] == "app" and s[1] == "empty" for c in conds for s in subs(c) for d in self.dels):
                        self.bad = "positions that are still held are forgotten"
                    elif not empty:
                        self.unknown = "an erased entry"
            elif mentions(loc, (M,)):
                key = key_of(loc, M)
                if e.k == "cont" and e.x.get("m") == "pop_back" and key is not None:
                    back = norm(e.old)
                    i = None
                    for l, v in moved:
                        if v == back:
                            i = found(l)
                    if i is None:
                        for c in conds:
                            if c[0] == "cmp" and c[1] == "eq" and any(s == back for s in subs(c)):
                                i = solve(c[2], back)
                    self.dels.append((key, i, loc))
                else:
                    self.unknown = "a change of the map (%s)" % e.k
        self.conds = conds


def subs(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subs(x)


def mentions(t, what):
    return any(s in what for s in subs(t))


def flatten(s):
    a = s[3] if len(s) > 3 else s[2:]
    return a if isinstance(a, tuple) else (a,)


def key_of(loc, M):
    for s in subs(loc):
        if s[0] == "app" and s[1] == "find" and any(x == ("load", M) for x in s[2:3]):
            a = s[3]
            return a[0] if len(a) == 1 else None
        if s[0] == "idx" and s[1] == M:
            return s[2]
    return None


def found(loc):
    for s in subs(loc):
        if s[0] == "app" and s[1] == "find":
            a = [x for x in flatten(s)]
            if len(a) >= 1 and not (isinstance(s[2], tuple) and s[2] and s[2][0] == "load"):
                return a[-1]
    return None


def solve(lin, back):
    """back == ? from a linear form that is zero"""
    if lin[0] != "lin":
        return None
    c, parts = lin[1], dict(lin[2])
    k = parts.pop(back, None)
    if k not in (1, -1):
        return None
    s = -k
    parts = tuple((t, v * s) for t, v in parts.items())
    c = c * s
    if c == 0 and len(parts) == 1 and parts[0][1] == 1:
        return parts[0][0]
    if not parts:
        return ("lit", c)
    return ("lin", c, tuple(sorted(parts, key=str)))


def same(a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "lin" == b[0]:
        return a[1] == b[1] and sorted(a[2], key=str) == sorted(b[2], key=str)
    return False


def judge_scope(sc, u=None):
    """first missing entry, or None; u: the update that is undone (index, old, value)"""
    for what, i, old, new in sc.want:
        if what == "set" and any(same_value(c, old, new) for c in sc.conds):
            continue
        need_add, need_del = what in ("set", "add"), what in ("set", "del")
        if u is not None and what == "set":
            idx, uo, uv = u
            if not same(new, uo):
                return None
            old = uv
            need_add = not any(c == ("app", "isnan") + tuple([c[2]] if False else []) or nan(c, uo) for c in sc.conds)
            need_del = not any(nan(c, uv) for c in sc.conds)
        if need_add and not any(same(k, new) and same(v, i) for k, v in sc.adds):
            return "position %s is not entered under its new value" % what_is(i)
        if need_del:
            got = [d for d in sc.dels if same(d[0], old) or u is not None and d[0] == ("load", ("idx", sc.L, i))]
            if not got:
                return "position %s is not removed from under its old value" % what_is(i)
            if not any(same(d[1], i) for d in got if d[1] is not None):
                return "another position than %s is removed from under its old value" % what_is(i)
        if u is not None:
            if not need_add and any(same(v, i) for k, v in sc.adds):
                return "position %s, which is taken away, is entered" % what_is(i)
    return None


def same_value(c, old, new):
    """the condition makes the two values equal, or may do so"""
    parts = {old, new}
    for n in (old, new):
        if isinstance(n, tuple) and n and n[0] == "lin":
            parts |= {t for t, _ in n[2]}
    return any(s in parts for s in subs(c) if s[0] not in ("lit",)) and c[0] in ("cmp", "not", "lin", "load", "param", "app") and \
        not any(s[0] == "app" and s[1] in ("find", "isnan") for s in subs(c)) and not any(s[0] == "size" for s in subs(c))


def nan(c, v):
    return c[0] == "app" and c[1] == "isnan" and v in c[2:] + tuple(flatten(c)) or c[0] == "isnan" and v in c


def what_is(t):
    from .engine import show
    try:
        return show(t)
    except Exception:
        return str(t)


def rule_inverse(ctx, undo=False):
    R = "inverse-undone" if undo else "inverse-kept"
    ctx.rule(R, ("undoing the changes of an array of offsets undoes those of the map from offsets to positions" if undo else
                 "whenever an array of offsets changes, the map from offsets to positions changes with it"), minimum=0)
    from .txn import paths_of
    p = program()
    for cls, X, Rm, flags in inverse_pairs(p):
        for f in p.methods_of(cls):
            if f.get("body") is None or f["n"] == short(cls).split("::")[-1] or f.get("const") or f["n"].startswith("~"):
                continue
            if (f["n"] == "revert") != undo:
                continue
            ps = paths_of(p, f, cls)
            if ps is None:
                ctx.undecided(R, "%s: paths not known" % short(f["q"]))
                continue
            scopes = []
            for q in ps:
                if q.end[0] == "throw":
                    continue
                if undo:
                    for e in q.events:
                        if e.k == "loop":
                            for r in e.x.get("paths") or []:
                                scopes.append((r.events, list(q.conds) + list(r.conds)))
                else:
                    scopes.append((q.events, list(q.conds)))
            worst, und, n = None, None, 0
            for evs, conds in scopes:
                if any(c == ("not", ("load", ("mem", ("this",), b), 0)) for c in conds for b in flags):
                    continue
                sc = Scope(X, Rm, evs, conds)
                if not sc.want:
                    continue
                n += 1
                u = None
                if undo:
                    u = update_of(sc)
                    if u is None:
                        und = und or "the undone update"
                        continue
                b = sc.bad or judge_scope(sc, u)
                if b and not sc.unknown:
                    worst = worst or b
                elif sc.unknown:
                    und = und or sc.unknown
            if worst:
                ctx.bad(R, short(f["q"]), where(f), "%s changes %s, but on a path %s in %s" % (short(f["q"]), X, worst, Rm))
            elif und:
                ctx.undecided(R, "%s: %s" % (short(f["q"]), und))
            elif n:
                ctx.ok(R, short(f["q"]))


def update_of(sc):
    """the record an undoing pass works on: (index, old, value)"""
    for what, i, old, new in sc.want:
        if what == "set" and i[0] == "load" and i[1][0] == "mem" and i[1][2] == "index" and new[0] == "load" and new[1][0] == "mem" and new[1][1] == i[1][1]:
            b = i[1][1]
            return i, ("load", ("mem", b, "old")), ("load", ("mem", b, "value"))
    return None


def rule_inverse_undone(ctx):
    rule_inverse(ctx, undo=True)


# --------------------------------------------------------------------------- combining change records
class Rec(Obj):
    """a change record whose parts may be assigned"""

    def __init__(self, i, old, value):
        Obj.__init__(self, "update", index=i, old=old, value=value)

    def copy(self):
        return Rec(self.at["index"], self.at["old"], self.at["value"])


class RecEval(Eval):
    """evaluation over lists of change records (None stands for no element)"""

    def bind(self, e, env):
        return Eval.bind(self, e, env)

    def store(self, x, v, env):
        while x.get("k") in ("cast", "paren", "icast"):
            x = x["e"]
        if x.get("k") == "mem" and x["n"] in ("index", "old", "value"):
            b = self.ev(x["b"], env)
            if isinstance(b, Rec):
                b.at[x["n"]] = v
                return
        if isinstance(v, Rec):
            v = v.copy()
        if x.get("k") == "ref" and isinstance(env.get(x.get("id")), Rec) and isinstance(v, Rec):
            env[x["id"]].at.update(v.at)
            return
        Eval.store(self, x, v, env)

    def op2(self, op, a, b):
        if op in ("==", "!=") and (a is None or b is None):
            return op == "!="           # not-a-number differs from everything
        return Eval.op2(self, op, a, b)

    def method(self, e, env):
        n, f = e["f"]["n"], e["f"]
        o = self.ev(e["o"], env)
        if isinstance(o, Rec):
            g = self.body(f)
            if g is None:
                raise Unknown("method %s" % n)
            keep, self.this = self.this, o
            try:
                return self.call(g, [self.ev(x, env) for x in e["a"]])
            finally:
                self.this = keep
        if isinstance(o, Vec):
            if n in ("resize", "erase", "begin", "end", "cbegin", "cend", "insert"):
                if n == "resize":
                    k = self.num(self.ev(e["a"][0], env))
                    if k < 0:
                        raise Outside("%d elements" % k)
                    if k > len(o):
                        o.extend([Rec(-666, None, 666)] * (k - len(o)))
                    del o[k:]
                    return None
                if n in ("begin", "cbegin"):
                    return It(o, 0)
                if n in ("end", "cend"):
                    return It(o, len(o))
                if n == "erase":
                    a = [self.ev(x, env) for x in e["a"]]
                    if len(a) == 2 and all(isinstance(x, It) for x in a):
                        del o[a[0].i:a[1].i]
                        return None
                raise Unknown("method %s" % n)
            if n == "clear":
                del o[:]
                return None
            if n in ("push_back", "emplace_back"):
                a = [self.ev(x, env) for x in e["a"]]
                a = [a[0].copy()] if len(a) == 1 and isinstance(a[0], Rec) else [Rec(*a)] if len(a) == 3 else None
                if a is None:
                    raise Unknown("an appended record")
                o.extend(a)
                return o[-1]
        return Eval.method(self, e, env)

    def free(self, e, env):
        f = e.get("f")
        n, q = (f["n"], f.get("q", "")) if isinstance(f, dict) else ("", "")
        if n == "isnan":
            return self.ev(e["a"][0], env) is None
        if n in ("stable_sort", "sort"):
            a = [self.ev(x, env) for x in e["a"]]
            if len(a) == 2 and all(isinstance(x, It) for x in a) and a[0].o is a[1].o or len(a) == 1 and isinstance(a[0], Vec) and q.startswith("std::ranges"):
                o = a[0].o if isinstance(a[0], It) else a[0]
                lo, hi = (a[0].i, a[1].i) if isinstance(a[0], It) else (0, len(o))
                if n == "sort" and len({r.at["index"] for r in o[lo:hi]}) < hi - lo:
                    raise Unstable()
                o[lo:hi] = sorted(o[lo:hi], key=lambda r: r.at["index"])
                return None
        if "Update::placement" in q or "Update::removal" in q:
            i, v = (self.ev(x, env) for x in e["a"])
            return Rec(i, None, v) if n == "placement" else Rec(i, v, None)
        return Eval.free(self, e, env)

    def ev(self, e, env, drop=False):
        if isinstance(e, dict) and e.get("k") == "bin" and e.get("op") in ("+", "-"):
            a = self.ev(e["x"], env)
            b = self.ev(e["y"], env)
            if isinstance(a, It) and isinstance(b, int):
                return It(a.o, a.i + (b if e["op"] == "+" else -b))
            return self.op2(e["op"], a, b)
        if isinstance(e, dict) and e.get("k") == "opcall" and e.get("op") in ("+", "-") and len(e["a"]) == 2:
            a, b = (self.ev(x, env) for x in e["a"])
            if isinstance(a, It) and isinstance(b, int):
                return It(a.o, a.i + (b if e["op"] == "+" else -b))
            return self.op2(e["op"], a, b)
        if isinstance(e, dict) and e.get("k") in ("ctor", "construct", "tempobj") and "Update" in str(e.get("t", "") or e.get("f", "")):
            a = [self.ev(x, env) for x in e.get("a") or []]
            if len(a) == 1 and isinstance(a[0], Rec):
                return a[0].copy()
            if len(a) == 3:
                return Rec(*a)
            raise Unknown("a record")
        return Eval.ev(self, e, env, drop)


class It:
    def __init__(self, o, i):
        self.o, self.i = o, i


class Unstable(Exception):
    """an order that is not defined"""


def change_lists(n):
    """lists of up to n true changes of an array of two elements with values 0 and 1: (list, elements before, elements after)"""
    out = []

    def go(els, recs, start):
        out.append((list(recs), start, tuple(els)))
        if len(recs) == n:
            return
        for i in range(len(els)):
            for v in (0, 1):
                go(els[:i] + [v] + els[i + 1:], recs + [(i, els[i], v)], start)
        if len(els) < 3:
            for v in (0, 1):
                go(els + [v], recs + [(len(els), None, v)], start)
        if els:
            go(els[:-1], recs + [(len(els) - 1, els[-1], None)], start)
    for start in ((), (0,), (0, 1)):
        go(list(start), [], start)
    return out


def rule_combine(ctx):
    R = "records-combined"
    ctx.rule(R, "what combines several change records of one place leaves one with the first old and the last new value, and none for a place that was "
             "added and removed again (for all true lists of up to four changes)", minimum=0)
    p = program()
    for f in [g[0] for g in p.byid.values()]:
        if f.get("body") is None or not f.get("repo") or f.get("cls") or len(f["params"]) != 1 or "std::vector<dwave::optimization::Update> &" != f["params"][0]["t"] or str(f.get("rt")) not in ("void", "None"):
            continue
        used = f["n"] == "deduplicate_diff"
        if not used:
            continue
        verdict, n = None, 0
        try:
            for recs, before, after in change_lists(4):
                v = Vec(Rec(*r) for r in recs)
                n += 1
                try:
                    RecEval(p, None).call(f, [v])
                except Unstable:
                    verdict = "the order of the changes of one place is not kept"
                    break
                got = {}
                show_in = ", ".join("%s: %s to %s" % tuple("nothing" if x is None else x for x in r) for r in recs)
                for r in v:
                    i, o, w = r.at["index"], r.at["old"], r.at["value"]
                    if i in got:
                        verdict = "place %d is left with two records" % i
                    got[i] = (o, w)
                for i in range(3):
                    want = (before[i] if i < len(before) else None, after[i] if i < len(after) else None)
                    have = got.pop(i, None)
                    if have is None and want[0] != want[1]:
                        verdict = "the change of place %d from %s to %s is lost" % (i, want[0], want[1])
                    elif have is not None and have != want:
                        verdict = "place %d changed from %s to %s, recorded is %s to %s" % (i, want[0], want[1], have[0], have[1])
                if got:
                    verdict = "a record of a place that did not change: %s" % sorted(got)
                if verdict is None and [r.at["index"] for r in v] != sorted(r.at["index"] for r in v):
                    verdict = "the places are not in ascending order"
                if verdict:
                    verdict += " (after %s)" % show_in.replace("None", "nothing")
                    break
        except Outside as u:
            verdict = "it reads %s" % u
        except Unknown as u:
            ctx.undecided(R, "%s: %s" % (short(f["q"]), u))
            continue
        if verdict:
            ctx.bad(R, short(f["q"]), where(f), "%s: %s" % (short(f["q"]), verdict))
        else:
            ctx.ok(R, "%s: %d lists" % (short(f["q"]), n))

"""Slices of arrays: what the methods of the indexing node do to the node's own state, for every small history of the
array that is sliced. From the source are taken: which members each path of initialize_state, propagate, commit and
revert writes (and with what), and what size, size_diff, shape, buff and diff return. The reference is the definition of a
slice: the elements of the array at the positions range(n)[slice] of the first axis, and likewise for the other axes.
Runs nothing: the extracted effects are applied to states made of lists of numbers."""
import itertools
import random
from .transfer import Op, Outside, OutOfRange, Unknown, NAN, It, FAILS, num
from .sizes import SPlay, sl
from .incr import method, functor, replay, alike, isnum
from .txn import short, concrete_nodes, paths_of
from .graphp import where
from .finite import show

MAX = 2 ** 63 - 1
BROKEN = (Unknown, TypeError, KeyError, ValueError, OverflowError, ZeroDivisionError, AttributeError, IndexError, RecursionError)
CAP = 1500


class Rows(Op):
    """an array of rows of a fixed shape; as many rows as there are"""

    def __init__(self, cur, dims, diff=(), dynamic=True):
        self.dims = list(dims)
        w = 1
        for d in dims:
            w *= d
        n = len(cur) // w if w else 0
        Op.__init__(self, cur, diff, shape=[-1 if dynamic else n] + list(dims), dynamic=dynamic,
                    strides=[8 * w] + [8 * (w // _prod(dims[:i + 1])) for i in range(len(dims))])
        self.row, self.n = w, n


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class View:
    """a slice of the first axis, and slices or positions of the others"""

    def __init__(self, first, rest, dims, n=None):
        self.first, self.rest, self.dims, self.n = first, list(rest), list(dims), n

    def __repr__(self):
        f = lambda x: str(x) if isinstance(x, int) else ":".join("" if v is None else str(v) for v in (x.start, x.stop, x.step))
        return "[%s]" % ", ".join(f(x) for x in [self.first] + self.rest)

    def positions(self, n):
        ax = [[self.first] if isinstance(self.first, int) else list(range(n)[self.first])]
        for x, d in zip(self.rest, self.dims):
            ax.append([x] if isinstance(x, int) else list(range(d)[x]))
        out = []
        for ix in itertools.product(*ax):
            j = ix[0]
            for k, d in zip(ix[1:], self.dims):
                j = j * d + k
            out.append(j)
        return out

    def of(self, o):
        return [o.cur[j] for j in self.positions(o.n)]

    def members(self, o):
        st = [s for s in o.strides]
        shape, strides, start = [], [], 0
        dyn = o.dynamic
        for a, x in enumerate([self.first] + self.rest):
            d = o.n if a == 0 else self.dims[a - 1]
            if isinstance(x, int):
                start += x * st[a] // 8
                continue
            if a == 0 and dyn:
                shape.append(-1)
                strides.append(st[0] * (x.step or 1))
            else:
                b, e, s = x.indices(d)
                shape.append(len(range(b, e, s)))
                strides.append(st[a] * s)
                start += b * st[a] // 8
        want = 8
        cont = True
        for n, s in reversed(list(zip(shape, strides))):
            if n == 1:
                continue
            if s != want:
                cont = False
            want *= n
        size = -1 if dyn else _prod(shape)
        m = {"array_ptr_": o, "ndim_": len(shape), "strides_": strides, "shape_": shape, "start_": start, "size_": size,
             "axis0_slice_": None, "contiguous_": cont, "topological_index_": 3, "successors_": [], "predecessors_": [o]}
        if dyn:
            f = self.first
            m["axis0_slice_"] = {"start": 0 if f.start is None else f.start, "stop": MAX if f.stop is None else f.stop, "step": f.step or 1}
        return m


class VPlay(SPlay):
    node = None

    def write(self, e):
        was = self.made
        SPlay.write(self, e)
        if self.made is not was and isinstance(self.made, dict):
            self.own = dict(self.made)
            # the constructor of the state's body copies the declared shape
            if not isinstance(self.own.get("dynamic_shape"), list):
                self.own["dynamic_shape"] = list(self.members["shape_"]) if self.members["axis0_slice_"] else []
            self.own = {k: v for k, v in self.own.items() if not isinstance(v, Exception)}

    def root(self, r, e):
        if r == "own" and e >= 1 << 40:
            return self.own         # the receiver of a call: what it is now
        return SPlay.root(self, r, e)

    def change(self, e):
        a = e.x.get("args") or []
        if e.x["m"] == "assign" and len(a) in (1, 2):
            c = self.listat(e.loc)
            v = [self.ev(x) for x in a]
            if len(v) == 2 and isinstance(v[0], It) and isinstance(v[1], It):
                c[:] = list(v[0].c[v[0].pos:v[1].pos])
                return
            if len(v) == 1 and isinstance(v[0], list):
                c[:] = list(v[0])
                return
        SPlay.change(self, e)

    def elements(self):
        """the node's own elements: the array's buffer seen through the view"""
        if self.limit is not None:
            raise Unknown("the view at an earlier time")
        return self.node.seen(self)

    def get0(self, t):
        k = t[0]
        if k == "obj" and t[1].endswith("::Slice"):
            d = dict((f, self.ev(x)) for f, x in t[2])
            d.setdefault("step", 1)
            return d
        if k == "app" and t[2] == ("this",) or k == "app" and t[2] == ("deref", ("addr", ("this",))):
            if t[1] == "view":
                return self.elements()
            if t[1] == "strides":
                return self.members["strides_"]
            if t[1] == "ndim":
                return self.members["ndim_"]
        if k == "app" and t[1] == "size" and t[2][0] != "none" and not t[3]:
            try:
                o = self.ev(t[2])
            except FAILS:
                o = self.cont(t[2])
            if isinstance(o, dict) and {"start", "stop"} <= set(o):
                a, b, c = int(o["start"]), int(o["stop"]), int(o.get("step", 1))
                return max(0, (b - a + c - 1) // c) if c > 0 else max(0, (a - b - c - 1) // -c) if c else self.beyond(t)
        if k == "app" and t[1] == "value_or" and len(t[3]) == 2 and t[3][0][0] == "load" and t[3][0][1][0] == "global" and "nullopt" in t[3][0][1][1]:
            return self.ev(t[3][1])
        if k == "app" and t[1] in ("reduce", "accumulate") and len(t[3]) == 4 and t[3][1][0] == "addr" and t[3][1][1][0] == "idx":
            F = functor(self.p, t[3][3][1]) if t[3][3][0] == "obj" else None
            c = self.read(t[3][1][1][1], 1 << 40) if self.limit is None else None
            if F is None or not isinstance(c, list):
                raise Unknown(t)
            acc = self.n(t[3][2])
            for x in c[:int(self.n(t[3][1][1][2]))]:
                acc = F(acc, x)
            return int(acc)
        if k == "app" and t[1] == "buff" and t[2][0] != "none":
            return 0
        if k == "tr" or k == "not":
            v = self.ev(t[1])
            return (not v) if k == "not" else bool(v)
        return SPlay.get0(self, t)

    def app(self, t):
        n, recv, a = t[1], t[2], t[3]
        if recv[0] != "none":
            try:
                o = self.cont(recv)
            except FAILS:
                o = None
            if isinstance(o, Rows):
                if n == "shape":
                    return ([o.n] + o.dims) if a else o.shape
                if n == "itemsize":
                    return 8
            if o is self.members and n == "itemsize":
                return 8
        return SPlay.app(self, t)


class Node:
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.f, self.pas = {}, {}
        for n in ("initialize_state", "propagate", "commit", "revert", "size", "size_diff", "shape", "buff", "diff"):
            f = method(p, cls, n) if n not in ("size", "shape") else self.stateful(n)
            self.f[n] = f
            self.pas[n] = [q for q in (paths_of(p, f, cls) or []) if q.end[0] != "throw"] if f is not None else []

    def stateful(self, n):
        for f in self.p.methods_of(self.cls):
            if f["n"] == n and f.get("body") is not None and len(f["params"]) == 1:
                return f
        return None

    def play(self, v, o, own=None):
        P = VPlay(v.members(o), own, functors=lambda t: functor(self.p, t))
        P.node, P.p = self, self.p
        return P

    def step(self, v, o, own, what):
        P = self.play(v, o, own)
        if not self.pas[what]:
            raise Unknown("no " + what)
        q = P.run(self.pas[what])
        if q is None:
            raise Unknown("no path of " + what)
        return P

    def value(self, P, what):
        held = P.levels
        P.levels = []
        from .transfer import Level
        P.levels.append(Level(0, P.snap()))
        try:
            for q in self.pas[what]:
                ok = True
                for c in q.conds:
                    if not P.ev(c):
                        ok = False
                        break
                if ok:
                    if q.end[0] != "ret":
                        raise Unknown(what)
                    r = q.end[1]
                    if what == "buff" and r[0] == "addr" and r[1][0] == "idx" and r[1][1][0] == "deref" and r[1][1][1][:2] == ("app", "buff"):
                        return P.n(r[1][2])
                    if r[0] == "span" and r[1][0] == "idx":
                        c, i, n = P.read(r[1][1], 1 << 40), int(P.n(r[1][2])), int(P.n(r[2]))
                        if not isinstance(c, list):
                            raise Unknown(what)
                        return c[i:i + n]
                    if r[0] == "L":
                        return P.read(r[1], 1 << 40)
                    return P.ev(q.end[1]) if what not in ("diff", "shape") else P.cont(q.end[1]) if q.end[1][0] not in ("app", "obj") else P.ev(q.end[1])
            raise Unknown(what)
        finally:
            P.levels = held

    def seen(self, P):
        """the elements that reading the node's view gives: buff, shape(state) and strides over the operand's buffer"""
        b = num(self.value(P, "buff"))
        sh = [int(num(x)) for x in self.value(P, "shape")][:P.members["ndim_"]]
        o = P.members["array_ptr_"]
        out = []
        for ix in itertools.product(*[range(n) for n in sh]):
            j = int(b) + sum(i * s // 8 for i, s in zip(ix, P.members["strides_"]))
            if not 0 <= j < len(o.cur):
                raise Beyond(j)
            out.append(o.cur[j])
        return out


class Beyond(Exception):
    pass


def hist(cur, row, steps, fresh, dynamic):
    """apply steps to the elements; returns (elements, change list)"""
    cur = list(cur)
    diff = []
    for s in steps:
        n = len(cur) // row
        if s == "grow" and dynamic and n < 6:
            for _ in range(row):
                x = next(fresh)
                diff.append((len(cur), NAN, x))
                cur.append(x)
        elif s == "shrink" and dynamic and n:
            for _ in range(row):
                diff.append((len(cur) - 1, cur.pop(), NAN))
        elif s in ("first", "last", "mid") and cur:
            i = {"first": 0, "last": len(cur) - 1, "mid": len(cur) // 2}[s]
            x = next(fresh)
            diff.append((i, cur[i], x))
            cur[i] = x
        else:
            return None
    return cur, diff


def views(dynamic):
    """(view, dims of a row, rows before)"""
    starts = [None, 1, 2, -1, -2, -3]
    stops = [None, 0, 1, 3, -1, -2]
    out = []
    if dynamic:
        for a in starts:
            for b in stops:
                for c in (1, 2):
                    s = slice(a, b, c)
                    out += [(s, [], []), (s, [2], [slice(None)]), (s, [3], [slice(0, 2)]), (s, [2], [1])]
    else:
        for n in (4,):
            for s in (slice(1, 3), slice(0, 4, 2), slice(1, 4, 2), slice(2, 2), slice(0, 4), 2):
                out += [(s, [], [], n), (s, [3], [slice(0, 2)], n), (s, [3], [slice(0, 3, 2)], n), (s, [2], [1], n), (s, [2], [slice(None)], n)]
    return out


def cases(tier):
    rnd = random.Random(11)
    ops = ("grow", "shrink", "first", "last", "mid")
    short_ = [c for k in (1, 2) for c in itertools.product(ops, repeat=k)]
    long_ = [tuple(rnd.choice(ops) for _ in range(rnd.choice((3, 4, 5)))) for _ in range(60)]
    out = []
    for first, dims, rest in views(True):
        for n in range(5):
            for h in short_ + long_:
                out.append((View(first, rest, dims), n, h, rnd.choice(("commit", "revert")), rnd.choice(long_ + short_), True))
    if tier == "quick":
        out = rnd.sample(out, CAP)
    g, k = "grow", "shrink"
    for h in ((k, k, g, g, g, g, k), (k, k, g, g, k), (g, k, k, g, g), (k, g, g, k, "last", k), (k, k, k, g, "last", g)):
        for a, b, c in ((None, None, 1), (1, None, 1), (None, 3, 1), (0, -1, 1), (1, -1, 1), (None, None, 2), (-2, None, 1)):
            for dims, rest in (([], []), ([2], [slice(None)])):
                out.append((View(slice(a, b, c), rest, dims), 4, h, rnd.choice(("commit", "revert")), rnd.choice(long_), True))
    for first, dims, rest, n in views(False):
        for h in [c for c in short_ + long_ if not {"grow", "shrink"} & set(c)]:
            out.append((View(first, rest, dims), n, h, rnd.choice(("commit", "revert")), rnd.choice([("first",), ("last", "mid"), ("mid", "mid")]), False))
    return out


MEMO = {}


def histories(ctx):
    """judge every history once: {aspect: [bad example or None, number decided, last reason]}"""
    from .facts import program
    p = program()
    if "res" in MEMO:
        return p, MEMO["res"]
    res = {}
    for cls in concrete_nodes(p):
        fs = {f["n"] for _, f in p.fields(cls)}
        if not {"axis0_slice_", "array_ptr_"} <= fs:
            continue
        res[cls] = judge(p, cls, ctx)
    MEMO["res"] = res
    return p, res


ASPECTS = ("start", "elements", "list", "difference", "commit", "revert")


def judge(p, cls, ctx):
    N = Node(p, cls)
    r = {a: [None, 0, 0, None] for a in ASPECTS}

    def put(aspect, wrong, v, o, what):
        r[aspect][1] += 1
        if wrong and r[aspect][0] is None:
            r[aspect][0] = "%s of an array with %s rows%s%s: %s" % (v, o.n, " of %s" % o.dims if o.dims else "", what, wrong)

    def undecided(aspects, u):
        for a in aspects:
            r[a][2] += 1
            r[a][3] = u

    cs = cases(ctx.tier)
    for v, n, h1, end, h2, dyn in cs:
        fresh = itertools.count(10)
        fr = (float(x) for x in fresh)
        row = _prod(v.dims)
        cur = [float(next(fresh)) for _ in range(n * row)]
        left = list(ASPECTS)
        o = Rows(cur, v.dims, dynamic=dyn)
        what = ""
        try:
            P = N.play(v, o, None)
            P.run(N.pas["initialize_state"])
            if P.made is None:
                raise Unknown("initial state")
            own = P.own
            left = ["start"]
            judge_state(N, P, v, o, put, "start", "")
            if N.value(P, "size_diff") != 0:
                put("start", "size_diff is %s after the state is initialised" % N.value(P, "size_diff"), v, o, "")
            at = o
            for k, (h, e) in enumerate(((h1, end), (h2, None))):
                left = ["elements", "list", "difference"]
                g = hist(at.cur, row, h, fr, dyn)
                if g is None:
                    break
                new = Rows(g[0], v.dims, g[1], dynamic=dyn)
                what = (", second proposal (after a %s)" % end if k else "") + ", changes " + ",".join(h)
                P = N.step(v, new, own, "propagate")
                own = P.own
                want, before = v.of(new), v.of(at)
                shown = judge_state(N, P, v, at, put, "elements", what, new)
                wrong = changes(N, P, before, want)
                put("list", wrong[0], v, at, what)
                put("difference", wrong[1], v, at, what)
                if k and not (shown and wrong == (None, None)):
                    left = [end]
                    F = N.play(v, Rows(at.cur, v.dims, dynamic=dyn), None)
                    F.run(N.pas["initialize_state"])
                    F = N.step(v, new, F.own, "propagate")
                    if N.seen(F) == want and changes(N, F, before, want) == (None, None):
                        put(end, "the state it leaves is not that of the %s values: from a fresh state the same proposal is right, after the %s %s"
                            % ("new" if end == "commit" else "old", end, wrong[0] or wrong[1] or "the elements are wrong"), v, at, what)
                if e is None:
                    break
                left = [e]
                new = Rows(g[0] if e == "commit" else at.cur, v.dims, dynamic=dyn)
                P = N.step(v, new, own, e)
                own = P.own
                left = [e]
                judge_state(N, P, v, new, put, e, what)
                ch = N.value(P, "diff")
                sd = int(num(N.value(P, "size_diff")))
                put(e, len(ch) and "changes are still reported after the %s" % e or sd and "size_diff is %d after the %s" % (sd, e), v, new, what)
                at = new
        except Beyond as b:
            for a in left[:1]:
                put(a, "its elements lie outside of the array (position %s)" % b, v, o, what)
        except Outside as u:
            undecided(left, "access outside: %s" % show(u.args[0])[:80])
        except BROKEN as u:
            undecided(left, u)
    ctx.count("histories of slices", len(cs))
    return r


def changes(N, P, before, want):
    """(what is wrong with the reported changes, with the size difference)"""
    ch = N.value(P, "diff")
    if not isinstance(ch, list) or not all(isinstance(c, dict) and isnum(c.get("index")) and isnum(c.get("old")) and isnum(c.get("value")) for c in ch):
        raise Unknown("change list")
    got, wrong = replay(before, ch)
    if wrong is None and not alike(got, want):
        wrong = "applied to %s it gives %s, the elements are %s" % (before, got, want)
    sd = int(num(N.value(P, "size_diff")))
    return (wrong and "the reported changes %s are wrong: %s" % ([(c["index"], c["old"], c["value"]) for c in ch], wrong),
            "size_diff is %d, the number of elements changes from %d to %d" % (sd, len(before), len(want)) if sd != len(want) - len(before) else None)


def judge_state(N, P, v, o, put, aspect, what, new=None):
    new = new if new is not None else o
    want = v.of(new)
    got = N.seen(P)
    sz = int(num(N.value(P, "size")))
    wrong = None
    if not alike(got, want):
        wrong = "its elements are %s, the slice of the array's elements is %s" % (got, want)
    elif sz != len(want):
        wrong = "its size is %d, it has %d elements" % (sz, len(want))
    put(aspect, wrong, v, o, what)
    return wrong is None


def report(ctx, R, text, aspects):
    ctx.rule(R, text, minimum=1)
    p, res = histories(ctx)
    if not res:
        ctx.undecided(R, "no slicing node found")
    for cls, r in sorted(res.items()):
        for a in aspects:
            bad, ok, und, why = r[a]
            name = short(cls)
            if bad:
                m = {"start": "initialize_state", "list": "propagate", "elements": "propagate", "difference": "propagate"}.get(a, a)
                f = method(p, cls, m)
                ctx.bad(R, "%s::%s" % (name, a), where(f), "%s: %s" % (name, bad))
            elif ok and not und:
                ctx.ok(R, "%s, %s: %d situations" % (name, a, ok))
            else:
                ctx.undecided(R, "%s, %s: %d of %d situations not understood (%s)" % (name, a, und, ok + und, str(why)[:160]))


def rule_list(ctx):
    report(ctx, "slice-changes", "for every small history of a sliced array that grows, shrinks and changes: the changes the slice "
           "reports lead from its elements before to its elements after, and the size difference is theirs", ("list", "difference"))


def rule_elements(ctx):
    report(ctx, "slice-elements", "for every small history of a sliced array: what the slice shows after initialisation and after "
           "propagation are the elements of the array at the positions of the slice", ("start", "elements"))


def rule_revert(ctx):
    report(ctx, "slice-revert", "after a revert of the array and of its slice, the slice shows the elements it had, reports no changes "
           "and no size difference, and a further proposal is reported correctly", ("revert",))


def rule_commit(ctx):
    report(ctx, "slice-commit", "after a commit the slice shows the new elements, reports no changes and no size difference, and a further "
           "proposal is reported correctly", ("commit",))

"""Evaluates the effect summaries the engine extracts from a member function over small finite states.

A summary is a set of paths; a path is a condition list and an effect list whose loops hold the effect paths of one
iteration. `Play.run` applies a summary to one abstract state of the node (its own containers and members, its operands'
elements and change lists). Every term of the summary that is not understood makes the result Unknown; nothing of the
analysed program is compiled or executed."""
import math
import sys
from .engine import *
from . import finite
from .finite import Unknown, num

DATA = ("data", ("this",))
THIS = ("this",)
NAN = float("nan")


FAILS = (Unknown, ZeroDivisionError, OverflowError, TypeError, KeyError, AttributeError, ValueError)


class OutOfRange(Unknown):
    """a read or write outside a container"""


class Opt(float):
    """a std::optional<double>: converts to whether it has a value"""

    def __new__(cls, v=None):
        r = float.__new__(cls, NAN if v is None else v)
        r.has = v is not None
        return r

    def __bool__(self):
        return self.has


class Outside(OutOfRange):
    """an access outside an operand or the node's own containers on a path known to be taken"""


class Op:
    """an operand: elements before and after, change list, shape"""

    def __init__(self, cur, diff=(), shape=None, dynamic=False, contiguous=True, strides=None):
        self.cur = list(cur)
        self.diff = [dict(index=i, old=o, value=v) for i, o, v in diff]
        self.shape = list(shape if shape is not None else (-1 if dynamic else len(self.cur),))
        self.dynamic = dynamic
        self.contiguous = contiguous
        if strides is None:
            strides = []
            s = 8
            for n in reversed(self.shape):
                strides.insert(0, s)
                s *= n
        self.strides = strides


class It:
    def __init__(self, c, pos):
        self.c, self.pos = c, pos


def dup(v):
    if isinstance(v, list):
        return [dup(x) for x in v] if v and isinstance(v[0], (list, dict)) else v[:]
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    return v


def plain(v):
    """the number of a truth value or of a compensated sum"""
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, dict) and "value_" in v and isinstance(v["value_"], (int, float)):
        return v["value_"]
    return v


class Level:
    def __init__(self, lid, mem):
        self.snaps = [(lid, mem)]


def bare(t):
    while isinstance(t, tuple) and t and t[0] in ("load", "rng") and len(t) > 1:
        t = t[1]
    return t


SKIP = object()


class Play:
    def __init__(self, members, own=None, params=(), fuel=60, functors=None):
        self.members = members
        self.own = own if own is not None else {}
        self.locals = {}
        self.params = dict(params)
        self.levels = []
        self.bind = {}
        self.fuel = fuel
        self.limit = None
        self.made = None
        self.functors = functors

    # ------------------------------------------------------------------ memory
    def snap(self):
        return (dup(self.own), dup(self.locals))

    def at(self, e):
        best = None
        for L in self.levels:
            for i, m in L.snaps:
                if i < e or i <= 0:
                    if best is None or i >= best[0]:
                        best = (i, m)
        if self.limit is not None and e > self.limit:
            raise Unknown(("later", e))
        return best[1]

    def path(self, loc):
        """(root, keys)"""
        k = loc[0]
        if loc == DATA:
            return "own", []
        if loc == THIS:
            return "this", []
        if k in ("var", "tmp"):
            return loc, []
        if k == "mem":
            r, ks = self.path(loc[1])
            return r, ks + [loc[2]]
        if k == "idx":
            r, ks = self.path(loc[1])
            i = self.ev(loc[2])
            if not isinstance(i, int) or isinstance(i, bool):
                raise Unknown(loc)
            return r, ks + [i]
        if k == "deref" and loc[1][0] == "addr":
            return self.path(loc[1][1])
        if k == "load":
            return self.path(loc[1])
        raise Unknown(loc)

    def walk(self, v, ks, loc):
        for x in ks:
            if isinstance(v, It) and isinstance(x, int):
                v, x = v.c, v.pos + x
            if isinstance(v, (list, tuple)) and isinstance(x, int):
                if not 0 <= x < len(v):
                    raise Outside(loc) if v and isinstance(v[0], float) else OutOfRange(loc)
                v = v[x]
            elif isinstance(v, dict) and x in v:
                v = v[x]
            else:
                raise Unknown(loc)
        return v

    def root(self, r, e):
        if r == "this":
            return self.members
        own, loc = self.at(e)
        if r == "own":
            return own
        if r in loc:
            return loc[r]
        return []      # a local container without a stored value was default-constructed

    def read(self, loc, e):
        if loc[0] == "global":
            if loc[1].endswith("nothing"):
                return NAN
            raise Unknown(loc)
        if loc[0] == "var" and len(loc) == 3 and loc[2] in self.params:
            return self.params[loc[2]]
        if loc[0] == "idx":
            c = self.cont(loc[1], e)
            i = self.ev(loc[2])
            if isinstance(i, float) and i.is_integer():
                i = int(i)
            if not isinstance(i, int):
                raise Unknown(loc)
            return self.walk(c, [i], loc)
        if loc[0] == "mem" and loc[1][0] == "heap" and loc[1][2][0] == "obj":
            for f, v in loc[1][2][2]:
                if f == loc[2]:
                    return self.ev(v)
        if loc[0] == "mem" and loc != DATA and loc[1] != THIS and loc[1] != DATA:
            try:
                v = self.cont(loc[1], e)
            except OutOfRange:
                raise
            return self.walk(v, [loc[2]], loc)
        if loc[0] == "deref":
            return self.cont(loc, e)
        r, ks = self.path(loc)
        return self.walk(self.root(r, e), ks, loc)

    def cont(self, c, e=0):
        """value of an object or container expression"""
        k = c[0]
        if k in ("mem", "var", "tmp", "idx") or c == DATA or c == THIS:
            if c == DATA or c == THIS or k in ("var", "tmp"):
                if k == "var" and c[2] in self.params:
                    return self.params[c[2]]
                r, ks = self.path(c)
                return self.root(r, e)
            return self.read(c, e)
        if k in ("load",):
            return self.read(c[1], c[2])
        if k in ("rng", "tview"):
            return self.cont(c[1], e)
        if k in ("drop", "take"):
            v = self.cont(c[1], e)
            n = int(num(self.ev(c[2])))
            if not isinstance(v, (list, tuple)):
                raise Unknown(c)
            return v[n:] if k == "drop" else v[:n]
        if k == "deref":
            p = c[1]
            if p[0] == "addr":
                return self.cont(p[1], e)
            return self.value(p)
        return self.value(c)

    def value(self, t):
        v = self.get(t)
        if v is None:
            raise Unknown(t)
        return v

    # ------------------------------------------------------------------ terms
    def ev(self, t):
        return finite._ev(t, self.get)

    def n(self, t):
        return num(self.ev(t))

    def get(self, t):
        k = t[0]
        if k == "load":
            return plain(self.read(t[1], t[2]))
        if k == "size":
            c = self.cont(t[1], t[2] if len(t) > 2 and isinstance(t[2], int) else 0)
            if isinstance(c, (list, tuple)):
                return len(c)
            raise Unknown(t)
        if k == "cmp" and t[1] in ("eq", "ne") and t[2][0] == "lin" and t[2][1] == 0 and len(t[2][2]) == 2 and {c for _, c in t[2][2]} == {1, -1}:
            a, b = [self.ev(x) for x, _ in t[2][2]]
            if isinstance(a, Op) and isinstance(b, Op):
                return (a is b) == (t[1] == "eq")
        if k in ("hav", "havi", "k"):
            if t in self.bind:
                return self.bind[t]
            raise Unknown(t)
        if k == "param":
            if t[1] in self.params:
                return self.params[t[1]]
            raise Unknown(t)
        if k in ("pos", "rng"):
            return self.ev(t[1])
        if k in ("idx", "mem", "var", "tmp") or t == DATA:
            return self.read(t, 1 << 40) if self.limit is None else self.cont(t)
        if k == "dyncast":
            return self.ev(t[2])
        if k == "deref":
            return self.cont(t)
        if k == "addr":
            return self.cont(t[1])
        if k == "obj":
            d = dict((f, self.tryev(x)) for f, x in t[2])
            for f, x in d.items():
                if isinstance(x, bool):
                    d[f] = float(x)
            if isinstance(d.get("ptr_"), It):
                return d["ptr_"]
            return d
        if k == "upd":
            v = dict(self.ev(t[1]))
            v.update((f, self.ev(x)) for f, x in t[2])
            return v
        if k == "new":
            return self.ev(t[2])
        if k == "iter":
            v = self.cont(t[1])
            i = self.ev(t[2])
            if isinstance(v, It):
                return It(v.c, v.pos + i)
            return It(v, i)
        if k == "list":
            return [self.ev(x) for x in t[1]]
        if k == "pending_tview" and t[1][0] == "tview":
            c, i = self.cont(t[1][1]), self.ev(t[2])
            if not isinstance(c, (list, tuple)) or not isinstance(i, int) or not 0 <= i < len(c):
                raise OutOfRange(t)
            return self.call(t[1][2], c[i])
        if k == "aidx":
            return self.strided(t[1], t[2], t[3])
        if k == "fld":
            v = self.ev(t[1])
            if isinstance(v, dict) and t[2] in v:
                return v[t[2]]
            raise Unknown(t)
        if k == "at":
            return self.walk(self.ev(t[1]), [self.ev(t[2])], t)
        if k == "global":
            return self.read(t, 0)
        if k in ("none", "null"):
            raise Unknown(t)
        if k == "app":
            return self.app(t)
        return None

    def call(self, f, x):
        """f(x) for a function object, possibly with bound arguments"""
        args = [num(x)]
        if f[0] == "bindf":
            args = [num(x) if contains(a, lambda z: z[0] == "global" and "placeholders::_1" in z[1]) else self.n(a) for a in f[2]]
            f = f[1]
        F = self.functors(f[1]) if self.functors and f[0] == "obj" else None
        if F is None:
            raise Unknown(f)
        return F(*args)

    def generic(self, paths, bind):
        """value of the body of an algorithm for one element"""
        held = dict(self.bind)
        self.bind.update(bind)
        try:
            hit = [r for c, r in paths if self.holds(c) is True]
            if len(hit) != 1:
                raise Unknown("body of an algorithm")
            return self.ev(hit[0])
        finally:
            self.bind = held

    def quantified(self, n, rng, body):
        """all_of / any_of / none_of"""
        v = self.cont(bare(rng))
        if isinstance(v, It) or not isinstance(v, (list, tuple)):
            raise Unknown(n)
        if body[0] != "body":
            raise Unknown(n)
        ks = set()
        for c, r in body[1]:
            contains((c, r), lambda z: ks.add(z) if isinstance(z, tuple) and len(z) == 2 and z[0] == "k" and isinstance(z[1], int) else False)
        if len(ks) > 1:
            raise Unknown(n)
        got = [bool(self.generic(body[1], {k: i for k in ks})) for i in range(len(v))]
        return all(got) if n == "all_of" else any(got) if n == "any_of" else not any(got)

    def strided(self, base, pos, args):
        """position in the buffer of element `pos` of a strided iterator starting at `base`"""
        b, i = int(self.n(base)), int(self.n(pos))
        if len(args) != 3:
            raise Unknown(args)
        nd = int(self.n(args[0]))
        sh, st = self.pointee(args[1]), self.pointee(args[2])
        if nd < 0 or len(sh) < nd or len(st) < nd:
            raise OutOfRange(args)
        for n, s in reversed(list(zip(sh[:nd], st[:nd]))):
            if n == 0:
                raise Unknown(args)
            b += (i % n) * (int(s) // 8)
            i //= n
        return b + 0 if i == 0 or nd == 0 else self.beyond(args)

    def beyond(self, t):
        raise OutOfRange(t)

    def pointee(self, t):
        """the list a pointer to an element points into"""
        if t[0] == "addr" and t[1][0] == "idx":
            c = self.cont(t[1][1])
            return c[int(self.n(t[1][2])):]
        v = self.ev(t)
        if isinstance(v, It):
            return v.c[v.pos:]
        raise Unknown(t)

    def tryev(self, t):
        try:
            return self.ev(t)
        except (Unknown, TypeError, KeyError):
            return Unknown(t)

    def app(self, t):
        n, recv, a = t[1], t[2], t[3]
        if recv[0] != "none" and recv != NOTHING:
            if n == "substitute":
                o = self.ev(recv)
                if isinstance(o, dict) and "multiplier" in o:
                    return o
                raise Unknown(t)
            try:
                o = self.cont(recv)
            except OutOfRange:
                raise
            if isinstance(o, Op):
                st = len(a) > 0
                if n == "view":
                    return o.cur
                if n == "diff":
                    return o.diff
                if n == "size":
                    return len(o.cur) if st or not o.dynamic else -1
                if n == "len" and st:
                    return len(o.cur)
                if n == "size_diff":
                    return sum((d["old"] != d["old"]) - (d["value"] != d["value"]) for d in o.diff)
                if n == "shape":
                    return o.shape if not st else [len(o.cur)] + list(o.shape[1:])
                if n == "strides":
                    return o.strides
                if n == "ndim":
                    return len(o.shape)
                if n == "dynamic":
                    return o.dynamic
                if n == "contiguous":
                    return o.contiguous
                if n in ("min", "max", "integral") and not st and hasattr(o, "range"):
                    return o.range[n]
                if n == "sizeinfo" and not st and hasattr(o, "sizes"):
                    return o.sizes
                if n == "buff":
                    return o.cur
                if n in ("begin",):
                    return It(o.cur, 0)
                if n in ("end",):
                    return It(o.cur, len(o.cur))
                raise Unknown(t)
            if n == "size" and isinstance(o, list):
                return len(o)
            raise Unknown(t)
        if n in ("min", "max") and a and a[0][0] in ("rng",) and all(x == ("list", ()) for x in a[1:]):
            v = [num(x) for x in self.cont(bare(a[0]))]
            if not v:
                raise OutOfRange(t)
            return min(v) if n == "min" else max(v)
        if n == "value_or" and len(a) == 2:
            o = self.ev(a[0])
            if isinstance(o, Opt):
                return float(o) if o.has else float(self.n(a[1]))
            return o
        if n == "equal" and len(a) >= 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return list(x) == list(y)
            raise Unknown(t)
        if n in ("make_pair", "pair", "make_tuple") and len(a) == 2:
            return {"first": self.ev(a[0]), "second": self.ev(a[1])}
        if n in ("reduce", "accumulate") and len(a) == 3 and a[1][0] == "body":
            _, acc, init, k = a[2]
            v = self.n(init)
            for i in range(len(self.cont(bare(a[0])))):
                v = self.generic(a[1][1], {k: i, acc: v})
            return v
        if n in ("reduce", "accumulate") and len(a) in (2, 3) and self.functors:
            v = self.cont(bare(a[0]))
            F = (lambda x, y: x + y) if len(a) == 2 else self.functors(a[2][1]) if a[2][0] == "obj" else None
            if F is None or not isinstance(v, (list, tuple)):
                raise Unknown(t)
            acc = self.n(a[1])
            for x in v:
                acc = F(acc, num(x))
            return acc
        if n.startswith("ctor:") and "ArrayIteratorImpl_" in n and len(a) == 4:
            src = self.pointee(a[0])
            nd, sh = int(self.n(a[1])), self.pointee(a[2])
            m = 1
            for x in sh[:nd]:
                m *= x
            out = []
            for i in range(int(m)):
                j = self.strided(("lit", 0), ("lit", i), a[1:])
                if not 0 <= j < len(src):
                    raise OutOfRange(t)
                out.append(src[j])
            return out
        if n.startswith("ctor:std::span") and len(a) == 2:
            v = self.ev(a[0])
            if isinstance(v, It):
                v = v.c[v.pos:]
            return v[:int(self.n(a[1]))]
        if n.startswith("ctor:std::vector"):
            a = [x for x in a if not (x[0] == "obj" and x[1].startswith("std::allocator"))]
            if not a:
                return []
            v = [self.ev(x) for x in a]
            if len(v) == 2 and isinstance(v[0], It) and isinstance(v[1], It):
                return list(v[0].c[v[0].pos:v[1].pos])
            if len(v) == 1 and isinstance(v[0], (list, tuple)):
                return list(v[0])
            if 1 <= len(v) <= 2 and isinstance(v[0], int) and 0 <= v[0] < 1000:
                return [num(v[1]) if len(v) == 2 else 0.0] * v[0]
            raise Unknown(t)
        if n.startswith("numeric_limits<") and not a:
            return limit(n)
        if n == "modf":
            return math.modf(self.n(a[0]))[0]
        if n in ("floor", "ceil", "trunc") and len(a) == 1:
            return float(getattr(math, n)(self.n(a[0])))
        if n in ("all_of", "any_of", "none_of") and len(a) == 2:
            return self.quantified(n, a[0], a[1])
        if n == "isnan":
            x = self.n(a[0])
            return x != x
        if n in ("isinf", "isfinite", "signbit"):
            x = self.n(a[0])
            return {"isinf": math.isinf(x), "isfinite": math.isfinite(x), "signbit": math.copysign(1, x) < 0}[n]
        if n in ("/", "%") and len(a) == 2:
            x, y = self.n(a[0]), self.n(a[1])
            if isinstance(x, int) and isinstance(y, int):
                if y == 0:
                    raise Unknown(t)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if n == "/" else x - q * y
            if n == "%":
                return math.fmod(x, y) if y else NAN
            if y == 0:
                return NAN if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            return x / y
        if n in ("fmod", "remainder") and len(a) == 2:
            x, y = self.n(a[0]), self.n(a[1])
            return math.fmod(x, y) if y and not math.isinf(x) else NAN
        if n == "sqrt":
            x = self.n(a[0])
            return math.sqrt(x) if x >= 0 else NAN
        if n == "pow" and len(a) == 2:
            r = self.n(a[0]) ** self.n(a[1])
            if isinstance(r, complex):
                raise Unknown(t)
            return r
        return None

    def holds(self, conds, early=None):
        """True / False / the conditions not decided yet; early: number above which memory versions are not there yet"""
        unk = []
        held, self.limit = self.limit, early
        try:
            for c in conds:
                try:
                    if not self.ev(c):
                        return False
                except Outside:
                    if not unk:
                        raise
                    unk.append(c)
                except FAILS:
                    unk.append(c)
        finally:
            self.limit = held
        return unk or True

    # ------------------------------------------------------------------ effects
    def run(self, pas, level=0):
        """apply one of the paths; returns its end"""
        base = self.snap() + (dict(self.bind), self.made)
        self.levels.append(Level(level, self.snap()[:2]))
        depth = len(self.levels)
        done = []
        errs = []
        try:
            for q in pas:
                self.own, self.locals = dup(base[0]), dup(base[1])
                self.bind, self.made = dict(base[2]), base[3]
                del self.levels[depth:]
                self.levels[-1] = Level(level, (dup(base[0]), dup(base[1])))
                try:
                    h = self.along(q)
                    if h is False:
                        continue
                    done.append((q, self.own, self.locals, self.bind, self.made, h is True))
                except FAILS as u:
                    errs.append((u, None))
        finally:
            del self.levels[depth - 1:]
        sure = [d for d in done if d[5]]
        if len(sure) >= 1 and len(done) == len(sure) and not errs or len(sure) == 1 and not errs and len(done) == 1:
            pick = sure
        else:
            pick = done
        if errs:
            raise errs[0][0] if isinstance(errs[0][0], Unknown) else Unknown(repr(errs[0][0]))
        if not pick:
            self.own, self.locals, self.bind, self.made = base[0], base[1], base[2], base[3]
            return None
        first = pick[0]
        for d in pick[1:]:
            if not same(strip_updates(d[1]), strip_updates(first[1])) or not same(d[2], first[2]) or d[0].end[0] != first[0].end[0] or not same(d[4], first[4]):
                raise Unknown("undecided branch")
        q, self.own, self.locals, self.bind, self.made, _ = first
        return q

    def along(self, q):
        """apply the effects of a path; False as soon as one of its conditions is known not to hold"""
        marks = [(i, e.x["id"] if e.k == "loop" else e.seq) for i, e in enumerate(q.events) if e.k in ("loop", "algo", "cont")]
        h = self.holds(q.conds, marks[0][1] if marks else None)
        if h is False:
            return False
        at = 0
        for n, (i, _) in enumerate(marks):
            self.sure(q.events[at:i + 1], h)
            at = i + 1
            if h is not True:
                h = self.holds(h, marks[n + 1][1] if n + 1 < len(marks) else None)
                if h is False:
                    return False
        self.sure(q.events[at:], h)
        if h is not True:
            h = self.holds(h)
        return h

    def sure(self, events, h):
        try:
            self.effects(events)
        except Outside as u:
            if h is not True:
                raise OutOfRange(u.args[0])
            raise

    def effects(self, events):
        for e in events:
            k = e.k
            if k in ("call", "basector", "catch"):
                if k == "call" and e.x.get("obj") == DATA:
                    raise Unknown("call " + str(e.x.get("name")))
                continue
            if k in ("w", "init"):
                self.write(e)
            elif k == "push":
                self.push(e)
            elif k == "cont":
                self.change(e)
            elif k == "algo":
                self.algo(e)
            elif k == "loop":
                self.loop(e)
            else:
                raise Unknown(k)

    def target(self, loc):
        """(parent object, key) for writing"""
        r, ks = self.path(loc)
        if r == "this":
            raise Unknown(loc)
        if r == "own":
            o = self.own
        else:
            if not ks:
                return self.locals, r
            o = self.locals.setdefault(r, {} if isinstance(ks[0], str) else [])
        if not ks:
            raise Unknown(loc)
        o = self.walk(o, ks[:-1], loc)
        if isinstance(o, list):
            if not 0 <= ks[-1] < len(o):
                raise OutOfRange(loc)
        elif not isinstance(o, dict):
            raise Unknown(loc)
        return o, ks[-1]

    def write(self, e):
        loc = e.loc
        if loc[0] == "idx" and loc[1][0] in ("var", "param") and loc[1][-1] == "state" and e.val is not None and e.val[0] == "new":
            self.made = self.ev(e.val)
            return
        if loc[0] == "tmp" or loc[0] == "mem" and loc[1][0] == "tmp":
            return
        if loc[0] == "mem" and loc[1][0] == "var":
            return          # members of a local object: reads see the assigned value directly
        v = self.ev(e.val)
        o, key = self.target(loc)
        o[key] = dup(float(v) if isinstance(v, bool) else v)

    def listat(self, loc):
        r, ks = self.path(loc)
        if r == "this":
            raise Unknown(loc)
        if r == "own":
            o = self.walk(self.own, ks, loc)
        else:
            if r not in self.locals:
                self.locals[r] = []
            o = self.walk(self.locals[r], ks, loc)
        if not isinstance(o, list):
            raise Unknown(loc)
        return o

    def push(self, e):
        if e.x["m"] not in ("push_back", "emplace_back"):
            raise Unknown(e.x["m"])
        v = self.ev(e.val)
        self.listat(e.loc).append(dup(float(v) if isinstance(v, bool) else v))

    def change(self, e):
        m, a = e.x["m"], e.x.get("args") or []
        c = self.listat(e.loc)
        if m == "pop_back":
            if not c:
                raise OutOfRange(e.loc)
            c.pop()
            return
        if m == "clear":
            c.clear()
        elif m == "resize":
            n = int(self.n(a[0]))
            if n < 0 or n > 1000:
                raise Unknown("resize")
            fill = self.n(a[1]) if len(a) > 1 else 0.0
            del c[n:]
            while len(c) < n:
                c.append(fill)
            return
        elif m == "erase" and contains(tuple(a), lambda z: z[0] == "app" and len(z) > 1 and z[1] == "unique"):
            pass            # erase(unique(...), end): done by unique
        else:
            raise Unknown(m)
        self.levels[-1].snaps.append((e.seq, self.snap()))

    def algo(self, e):
        n = e.x["name"]
        c = self.listat(e.loc)
        if n in ("sort", "stable_sort") and e.x.get("cmp") is None and all(isinstance(x, (int, float)) for x in c):
            c.sort()
        elif n == "unique":
            r = []
            for x in c:
                if not r or r[-1] != x:
                    r.append(x)
            c[:] = r
        elif n == "copy" and len(e.x.get("args") or ()) == 3:
            a = e.x["args"]
            x, y = self.ev(a[0]), self.ev(a[1])
            if not isinstance(x, It) or not isinstance(y, It):
                raise Unknown(n)
            src = list(x.c[x.pos:y.pos])
            d = a[2]
            if d[0] != "iter":
                raise Unknown(n)
            at = int(self.n(d[2]))
            ar = d[1][1][3] if d[1] != e.loc and d[1][0] == "deref" and d[1][1][0] == "app" else None
            if d[1] != e.loc and ar is None:
                raise Unknown(n)
            for i, v in enumerate(src):
                j = at + i if ar is None else self.strided(ar[0][1][2], ("lit", at + i), ar[1:])
                if not 0 <= j < len(c):
                    raise OutOfRange(e.loc)
                c[j] = v
        else:
            raise Unknown(n)
        self.levels[-1].snaps.append((e.seq, self.snap()))

    def loop(self, e):
        x = e.x
        if x.get("partial"):
            raise Unknown("partial loop")
        lid = x["id"]
        rng = x["range"]
        quiet = x["kind"] not in ("for", "while", "do", "rfor")
        if quiet and all(g.k == "call" and (g.x.get("f") or {}).get("const") for q in x["paths"] for g in q.events):
            return
        if rng is not None:
            if contains(rng, lambda z: z[0] == "mem" and len(z) == 3 and z[2] == "successors_"):
                return
            n = self.cont(rng, lid)
            if not isinstance(n, (list, tuple)):
                raise Unknown(rng)
            n = len(n)
        elif x["kind"] not in ("for", "while"):
            raise Unknown(x["kind"])
        else:
            n = None
        accs = {}
        for v, (start, init, after) in x.get("acc", {}).items():
            if v[2] == "state":
                continue
            try:
                accs[v] = (start, self.ev(init), after)
            except (Unknown, TypeError):
                accs[v] = (start, SKIP, after)
        for v, (start, init, after) in x.get("iters", {}).items():
            try:
                accs[v] = (start[2], self.ev(init[2]), after[2])
            except (Unknown, TypeError, IndexError):
                accs[v] = (start[2], SKIP, after[2])
        cur = {v: a[1] for v, a in accs.items()}
        k = 0
        while n is None or k < n:
            if k > self.fuel:
                raise Unknown("loop does not end")
            self.bind[("k", lid)] = k
            for v, a in accs.items():
                if cur[v] is SKIP:
                    self.bind.pop(a[0], None)
                else:
                    self.bind[a[0]] = cur[v]
            held = dict(self.bind)
            q = self.run_iter(x["paths"], lid, accs, cur, n is None)
            self.bind = held
            if q is None:
                if n is None:
                    break
                raise Unknown("no path of an iteration")
            k += 1
            if q.end[0] == "break":
                break
            if q.end[0] not in ("normal", "continue", "fall") and not (quiet and q.end[0] == "ret"):
                raise Unknown(q.end[0])
        for v, a in accs.items():
            if cur[v] is not SKIP and a[2] is not None:
                self.bind[a[2]] = cur[v]
        if x.get("trips"):
            self.bind[x["trips"]] = k
        self.levels[-1].snaps.append((lid, self.snap()))

    def run_iter(self, paths, lid, accs, cur, counted):
        """one iteration: choose its path, apply it, update the loop-carried values"""
        base = self.snap() + (dict(self.bind), self.made)
        self.levels.append(Level(lid, self.snap()))
        depth = len(self.levels)
        outs = []
        errs = []
        try:
            for q in paths:
                self.own, self.locals = dup(base[0]), dup(base[1])
                self.bind, self.made = dict(base[2]), base[3]
                del self.levels[depth:]
                self.levels[-1] = Level(lid, (dup(base[0]), dup(base[1])))
                try:
                    h = self.along(q)
                    if h is False:
                        continue
                    nc = dict(cur)
                    for v, a in accs.items():
                        if v in q.st.store:
                            t = q.st.store[v]
                            if t[0] in ("iter", "riter"):
                                t = t[2]
                            try:
                                nc[v] = self.ev(t)
                            except (Unknown, TypeError):
                                nc[v] = SKIP
                    outs.append((q, self.own, self.locals, self.made, nc, h is True))
                except FAILS as u:
                    errs.append((u, None))
        finally:
            del self.levels[depth - 1:]
        if errs:
            u = errs[0][0]
            if isinstance(u, Outside) and (outs or any(not isinstance(x, Outside) for x, _ in errs)):
                u = OutOfRange(u.args[0])
            raise u if isinstance(u, Unknown) else Unknown(repr(u))
        if not outs:
            self.own, self.locals, self.bind, self.made = base
            return None
        f = outs[0]
        for d in outs[1:]:
            if not same(strip_updates(d[1]), strip_updates(f[1])) or not same(d[2], f[2]) or d[0].end[0] != f[0].end[0] or not same(
                    {k: v for k, v in d[4].items() if v is not SKIP}, {k: v for k, v in f[4].items() if v is not SKIP}):
                raise Unknown("undecided branch of an iteration")
        q, self.own, self.locals, self.made, nc, _ = f
        cur.update(nc)
        return q


LIMITS = {"double": (-sys.float_info.max, sys.float_info.max, sys.float_info.min), "float": (-3.4028234663852886e38, 3.4028234663852886e38, 1.1754943508222875e-38),
          "long": (-2 ** 63, 2 ** 63 - 1, -2 ** 63), "int": (-2 ** 31, 2 ** 31 - 1, -2 ** 31), "unsigned long": (0, 2 ** 64 - 1, 0), "unsigned int": (0, 2 ** 32 - 1, 0),
          "short": (-2 ** 15, 2 ** 15 - 1, -2 ** 15), "signed char": (-128, 127, -128), "unsigned char": (0, 255, 0), "bool": (False, True, False)}


def limit(n):
    """std::numeric_limits<T>::lowest / max / min / infinity"""
    ty, m = n[len("numeric_limits<"):].rsplit(">::", 1)
    if m in ("infinity", "quiet_NaN", "epsilon") and ty == "double":
        return {"infinity": math.inf, "quiet_NaN": NAN, "epsilon": sys.float_info.epsilon}[m]
    if ty not in LIMITS or m not in ("lowest", "max", "min"):
        raise Unknown(n)
    return LIMITS[ty][("lowest", "max", "min").index(m)]


def strip_updates(o):
    if isinstance(o, dict):
        return {k: v for k, v in o.items() if not (k == "updates" and isinstance(v, list))}
    return o


def same(a, b):
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, It) and isinstance(b, It):
        return a.pos == b.pos and same(a.c, b.c)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a is b or a == b

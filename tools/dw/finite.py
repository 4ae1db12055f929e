"""Deciding implications between guard terms over a small finite domain.

Guards and stored values are terms over a handful of atoms (an element, a bound, a size).  Whether a
guard implies a domain predicate is decided by enumerating small values of these atoms; a term that
is not understood makes the answer Unknown, never a violation.
"""
import itertools
from fractions import Fraction
import math
from .engine import *


class Unknown(Exception):
    pass


def sl(t):
    while t[0] == "load":
        t = t[1]
    return t


ALIAS = {}
ROOT = [None]


def set_root(root, aliases=()):
    """local copies of the parameter `root`, and places it was moved to, count as root itself"""
    ALIAS.clear()
    ROOT[0] = root
    for a in aliases:
        ALIAS[a] = root


def canon(t):
    """term without load wrappers (memory versions forgotten)"""
    r = _canon(t)
    return r


def _canon(t):
    if isinstance(t, tuple):
        if t and t[0] == "load":
            return canon(t[1])
        if len(t) == 3 and t[0] == "size" and not isinstance(t[2], tuple):
            return ("size", canon(t[1]))
        r = tuple(canon(x) for x in t)
        if ROOT[0] is not None and len(r) == 3 and r[0] == "var" and r[2] == ROOT[0][1]:
            return ROOT[0]
        return ALIAS.get(r, r) if ALIAS else r
    return t


def atom_key(t):
    return canon(t)


def ev(t, env):
    """value of a term; env: canonical atom -> value, or a function returning None when it is not known"""
    get = env if callable(env) else env.get
    t0 = canon(t)
    return _ev(t0, get)


def _ev(t, get):
    v = get(t)
    if v is not None:
        return v
    k = t[0]
    if k == "lit":
        return t[1]
    if k == "lin":
        s = t[1]
        for a, c in t[2]:
            s += c * num(_ev(a, get))
        return s
    if k == "mul":
        s = 1
        for a in t[1]:
            s *= num(_ev(a, get))
        return s
    if k == "cmp":
        v = num(_ev(t[2], get))
        return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0}[t[1]]
    if k == "not":
        return not _ev(t[1], get)
    if k in ("and", "or"):
        unk = None
        for x in t[1]:
            try:
                v = bool(_ev(x, get))
            except Unknown as u:
                unk = u
                continue
            if v == (k == "or"):
                return v
        if unk is not None:
            raise unk
        return k == "and"
    if k == "cond":
        return _ev(t[2] if _ev(t[1], get) else t[3], get)
    if k == "tr":
        return bool(_ev(t[1], get))
    if k == "toint":
        v = num(_ev(t[1], get))
        if v != v or abs(v) == math.inf:
            raise Unknown(t)
        return int(v)
    if k in ("min", "max"):
        return (min if k == "min" else max)(num(_ev(x, get)) for x in t[1])
    if k == "app":
        n, a = t[1], t[3]
        if n == "value_or" and len(a) == 2:
            return _ev(a[0], get)
        if n in ("round", "floor", "ceil", "trunc", "abs", "fabs", "rint", "nearbyint") and len(a) == 1:
            x = num(_ev(a[0], get))
            if x != x or abs(x) == math.inf:
                if n in ("abs", "fabs"):
                    return abs(x)
                return x
            return {"round": lambda: math.copysign(math.floor(abs(x) + 0.5), x), "floor": lambda: math.floor(x), "ceil": lambda: math.ceil(x),
                    "trunc": lambda: math.trunc(x), "abs": lambda: abs(x), "fabs": lambda: abs(x), "rint": lambda: round(x),
                    "nearbyint": lambda: round(x)}[n]()
        if n in ("min", "max") and len(a) == 2:
            return (min if n == "min" else max)(num(_ev(x, get)) for x in a)
        if n in ("fmod", "remainder") and len(a) == 2:
            d = num(_ev(a[1], get))
            if d == 0:
                raise Unknown(t)
            return math.fmod(num(_ev(a[0], get)), d)
        if n == "/" and len(a) == 2:
            d = num(_ev(a[1], get))
            if d == 0:
                raise Unknown(t)
            return num(_ev(a[0], get)) / d
        if n in ("%",) and len(a) == 2:
            d = num(_ev(a[1], get))
            if d == 0:
                raise Unknown(t)
            return math.fmod(num(_ev(a[0], get)), d)
        if n == "clamp" and len(a) == 3:
            return min(max(num(_ev(a[0], get)), num(_ev(a[1], get))), num(_ev(a[2], get)))
    raise Unknown(t)


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float, Fraction)):
        return v
    raise Unknown(v)


def all_true(conds, env):
    """True/False, or raises Unknown when it depends on something not understood"""
    unk = None
    for c in conds:
        try:
            if not ev(c, env):
                return False
        except Unknown as u:
            unk = u
    if unk is not None:
        raise unk
    return True


def grid(atoms):
    """atoms: {canonical atom: values} -> iterable of env dicts"""
    ks = list(atoms)
    for vs in itertools.product(*[atoms[k] for k in ks]):
        yield dict(zip(ks, vs))


def fields_in(t):
    """canonical ('mem', THIS, name) atoms of a term"""
    return {z for z in subterms(canon(t)) if len(z) == 3 and z[0] == "mem" and z[1] == ("this",)}

"""Extract and load the resolved-program facts (C++ via libTooling, Cython/Python via the Cython parser).

Everything is re-derived from /repo's working tree on every run; results are cached under
/verif/build keyed by the content of every input file, so a stale cache cannot be used.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("DW_REPO", "/repo")
BUILD = os.environ.get("DW_BUILD", os.path.join(VERIF, "build"))
CPPDIR = os.path.join(VERIF, "tools", "cppfacts")
PKG = "dwave/optimization"


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (vanished anchor, unparsable unit, ...)"""


def sha(*paths_or_bytes):
    h = hashlib.sha256()
    for p in paths_or_bytes:
        if isinstance(p, bytes):
            h.update(p)
        else:
            h.update(p.encode())
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def content_key(paths):
    """names relative to the repository, and contents"""
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() if p.startswith(REPO) else os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(CPPDIR, "dwfacts.cpp")
    exe = os.path.join(BUILD, "dwfacts-" + sha(src))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-O1", "-fno-rtti", "-std=c++17", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the fact extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def walk_files(sub, exts):
    out = []
    for d, dirs, fs in os.walk(os.path.join(REPO, sub)):
        dirs[:] = [x for x in dirs if x not in ("_build", "__pycache__")]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def cpp_units():
    us = walk_files(PKG + "/src", (".cpp",))
    return us + [os.path.join(CPPDIR, "inst.cpp")]


def cpp_facts():
    """list of (unit name, facts)"""
    exe = tool()
    inputs = walk_files(PKG + "/src", (".cpp", ".hpp", ".h")) + walk_files(
        PKG + "/include", (".hpp", ".h"))
    key = sha(exe.encode(), content_key(inputs + [os.path.join(CPPDIR, "inst.cpp")]).encode())
    cache = os.path.join(BUILD, "cpp-" + key + ".pkl")
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    os.makedirs(BUILD, exist_ok=True)
    units = cpp_units()
    if len(units) < 13:
        raise AnalysisBroken("only %d C++ units found, expected at least 13" % len(units))

    hdrs = [x for x in inputs if x.endswith((".hpp", ".h"))]
    hkey = content_key(hdrs)

    def one(u):
        # a unit's facts depend on the unit, the headers and the extractor only
        ukey = sha(exe.encode(), hkey.encode(), content_key([u]).encode())
        ucache = os.path.join(BUILD, "u-" + ukey + ".pkl")
        if os.path.exists(ucache):
            try:
                with open(ucache, "rb") as f:
                    return os.path.basename(u), pickle.load(f)
            except Exception:
                pass
        out = os.path.join(BUILD, "f-%d-%s.json" % (os.getpid(), os.path.basename(u)))
        cmd = [exe, REPO.rstrip("/") + "/", out, u, "-std=c++20", "-DNDEBUG",
               "-resource-dir=/usr/lib/llvm-18/lib/clang/18",
               "-I" + os.path.join(REPO, PKG, "include"), "-I" + REPO]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("clang could not parse %s:\n%s" % (u, r.stderr[-3000:]))
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        tmp = ucache + ".%d.tmp" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(d, f, protocol=4)
        os.replace(tmp, ucache)
        return os.path.basename(u), d

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    tmp = cache + ".%d.tmp" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(res, f, protocol=4)
    os.replace(tmp, cache)
    return res


class Program:
    """merged view over all C++ units"""

    def __init__(self, units):
        self.units = [u for u, _ in units]
        self.fn = {}        # (unit, id) -> function
        self.byid = {}      # id -> [functions]
        self.byq = {}       # qualified name -> [functions] (deduplicated by id)
        self.rec = {}       # record name -> record
        self.globals = {}
        for u, d in units:
            for f in d["functions"]:
                f["unit"] = u
                k = (u, f["id"])
                if k in self.fn:
                    continue
                self.fn[k] = f
                lst = self.byid.setdefault(f["id"], [])
                if not lst:
                    self.byq.setdefault(f["q"], []).append(f)
                lst.append(f)
            for r in d["records"]:
                r["unit"] = u
                if r["n"] not in self.rec:
                    self.rec[r["n"]] = r
                else:
                    # keep the union of the methods seen (member template instantiations)
                    have = {m["id"] for m in self.rec[r["n"]]["methods"]}
                    self.rec[r["n"]]["methods"] += [m for m in r["methods"] if m["id"] not in have]
            for g in d["globals"]:
                self.globals.setdefault(g["q"], g)
        self._sub = {}
        for n, r in self.rec.items():
            for b in r["bases"]:
                self._sub.setdefault(strip_t(b), set()).add(n)
        self._meth = {}
        for lst in self.byid.values():
            f = lst[0]
            if f.get("cls"):
                self._meth.setdefault(f["cls"], []).append(f)

    # ---- hierarchy -------------------------------------------------------------------
    def bases(self, n):
        """all transitive bases incl. self, most derived first"""
        out, todo = [], [n]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.rec.get(x)
            if r:
                todo += [strip_t(b) for b in r["bases"]]
        return out

    def derived(self, n):
        out, todo = set(), [n]
        while todo:
            x = todo.pop()
            for s in self._sub.get(x, ()):
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out

    def is_a(self, n, base):
        return base in self.bases(n)

    def field_types(self):
        """name of a field -> the types it has in any class"""
        if getattr(self, "_ftypes", None) is None:
            self._ftypes = {}
            for r in self.rec.values():
                for f in r.get("fields", []):
                    self._ftypes.setdefault(f["n"], set()).add(f["t"])
        return self._ftypes

    def fields(self, n):
        out = []
        for b in self.bases(n):
            r = self.rec.get(b)
            if r:
                out += [(b, f) for f in r["fields"]]
        return out

    def methods_of(self, n):
        return self._meth.get(n, [])

    def find(self, fid, unit=None):
        f = self.fn.get((unit, fid))
        if f:
            return f
        l = self.byid.get(fid)
        return l[0] if l else None

    def overrides(self, fid, root):
        """does function fid (transitively) override root id?"""
        f = self.find(fid)
        if fid == root:
            return True
        seen = set()
        todo = [fid]
        while todo:
            x = todo.pop()
            if x == root:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += self.over_of(x)
        return False

    def over_of(self, fid):
        f = self.find(fid)
        if f and f.get("over"):
            return f["over"]
        m = self._methdecl().get(fid)
        return m.get("over", []) if m else []

    def _methdecl(self):
        if not hasattr(self, "_md"):
            self._md = {}
            for r in self.rec.values():
                for m in r["methods"]:
                    self._md.setdefault(m["id"], m)
        return self._md

    def resolve_virtual(self, cls, fid):
        """final overrider of virtual fid in dynamic class cls, as function or None"""
        for b in self.bases(cls):
            r = self.rec.get(b)
            if not r:
                continue
            for m in r["methods"]:
                if m["id"] == fid or (m.get("over") and self.overrides(m["id"], fid)):
                    f = self.find(m["id"])
                    if f:
                        return f
                    if m.get("pure"):
                        continue
                    return None
        return None

    def final_method(self, cls, name, nparams=None, pred=None):
        for b in self.bases(cls):
            for f in self.methods_of(b):
                if f["n"] == name and (nparams is None or len(f["params"]) == nparams) and (
                        pred is None or pred(f)):
                    return f
        return None


def strip_t(t):
    t = t.strip()
    for pre in ("const ", "class ", "struct "):
        if t.startswith(pre):
            t = t[len(pre):]
    while t and t[-1] in "&* ":
        t = t[:-1]
    if t.endswith(" const"):
        t = t[:-6]
    return t


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(cpp_facts())
    return _prog

#!/usr/bin/env python3
"""developer aid: run checks on scratch copies with small edits applied (M = must be caught, R = must stay quiet).
usage: mut.py FILE.py [name-regex]      FILE defines M(name, prop, file, old, new, ...)/R(...) calls"""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = "dwave/optimization/src/"; N = S + "nodes/"; I = "dwave/optimization/include/dwave-optimization/"; Y = "dwave/optimization/"
cases = []
def M(name, prop, *edits): cases.append(("M", name, prop, edits))
def R(name, prop, *edits): cases.append(("R", name, prop, edits))
def run(c):
    kind, name, props, edits = c
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.environ.get("MUTBASE", "/repo") + "/dwave", d + "/dwave", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        if len(edits) == 3 and isinstance(edits[0], str): edits = [edits]
        for f, old, new in edits:
            t = open(d + "/" + f).read()
            if t.count(old) < 1: return kind, name, "EDIT-NOT-FOUND " + old[:50], ""
            open(d + "/" + f, "w").write(t.replace(old, new, 1))
        res = []; out = ""
        for p in props.split(","):
            if kind == "M" and any(rc == 1 for _, rc in res): break
            r = subprocess.run([V + "/check", p], capture_output=True, text=True, env=dict(os.environ, DW_REPO=d, DW_BUILD="/tmp/mutbuild", DW_EVID=d + "/ev"))
            res.append((p, r.returncode)); out += r.stdout + r.stderr[-600:]
        return kind, name, res, out
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
    todo = [c for c in cases if rx.search(c[1])]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for kind, name, res, out in ex.map(run, todo):
            if isinstance(res, str): print("?? ", name, res); bad += 1; continue
            ok = any(rc == 1 for _, rc in res) and all(rc in (0, 1) for _, rc in res) if kind == "M" else all(rc == 0 for _, rc in res)
            if not ok:
                bad += 1
                print("MISS" if kind == "M" else "FALSE-ALARM", name, res)
                print("   ", "\n    ".join(out.strip().split("\n")[-8:])[:1800])
            elif "-v" in sys.argv:
                print("ok", kind, name, res); print("   ", "\n    ".join(l for l in out.split("\n") if "[" in l)[:500])
    print("%d cases, %d not as expected" % (len(todo), bad))

"""Development aid: write /verif/seeded/<id>/ from seeds_src.py (patch made against /repo's HEAD)."""
import json, os, shutil, subprocess, sys
V = "/verif"; HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = []
def seed(id, prop, edits, demo, needs, what, py=False):
    SEEDS.append((id, prop, edits, demo, needs, what, py))
exec(open(os.path.join(HERE, "seeds_src.py")).read())
only = sys.argv[1:]
for id, prop, edits, demo, needs, what, py in SEEDS:
    if only and id not in only: continue
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, a, b in edits:
        src = files.get(f) or subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        n = src.count(a)
        if n != 1: sys.exit("%s: %d matches in %s for:\n%s" % (id, n, f, a))
        files[f] = src.replace(a, b)
    for f, new in files.items():
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout
        os.makedirs("/tmp/mk/a/" + os.path.dirname(f), exist_ok=True); os.makedirs("/tmp/mk/b/" + os.path.dirname(f), exist_ok=True)
        open("/tmp/mk/a/" + f, "w").write(old); open("/tmp/mk/b/" + f, "w").write(new)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd="/tmp/mk", capture_output=True, text=True).stdout
        diff += "diff --git a/%s b/%s\n" % (f, f) + "\n".join((l.split("\t")[0] if l.startswith(("---", "+++")) else l) for l in r.split("\n"))
    shutil.rmtree("/tmp/mk", ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    if py:
        open(d + "/demo.py", "w").write(demo); shutil.copy(HERE + "/demopy.sh", d + "/demo.sh")
    else:
        open(d + "/demo.cpp", "w").write(demo); shutil.copy(HERE + "/demo.sh", d + "/demo.sh"); shutil.copy(HERE + "/h.hpp", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print(id, "written")

#!/usr/bin/env python3
"""developer aid: DESIGN.md = design_src.md with the tables filled in from MANIFEST.json, the rules' own texts and the planted changes"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
chk = {c["property"]: c for c in man["checks"]}
out = open(V + "/tools/dev/design_src.md").read()
t = ["| property | title | rules | obligations (hold / undecided) | seconds |", "|---|---|---|---|---|"]
for p in props:
    if p["id"] not in chk:
        continue
    e = json.load(open(V + "/evidence/%s.json" % p["id"]))
    c = e["coverage"]
    t.append("| %s | %s | %s | %d (%d / %d) | %.0f |" % (p["id"], p["title"], ", ".join(c["rules"]), c["obligations"], c["discharged"], c["undecided"], e["wall_s"] + 0.5))
out = out.replace("@@TABLE@@", "\n".join(t))
r = []
for p in props:
    if p["id"] not in chk:
        continue
    e = json.load(open(V + "/evidence/%s.json" % p["id"]))
    r.append("**%s** (%s)" % (p["id"], chk[p["id"]]["technique"]))
    r.append("")
    for n, x in e["coverage"]["rules"].items():
        r.append("- `%s`: %s (%d instances)" % (n, x["rule"], x["instances"]))
    r.append("")
out = out.replace("@@RULES@@", "\n".join(r))
s = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = {}
cf = V + "/tools/dev/caught.txt"
if os.path.exists(cf):
    caught = dict(l.strip().split(" ", 1) for l in open(cf) if " " in l.strip())
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    s.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, m["property"])))
out = out.replace("@@SEEDS@@", "\n".join(s))
open(V + "/DESIGN.md", "w").write(out)

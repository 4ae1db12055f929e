"""Check framework: obligations, verdicts, evidence, known findings."""
import contextlib
import json
import os
import sys
import time
import traceback

from .facts import VERIF, AnalysisBroken, REPO

KNOWN = os.path.join(VERIF, "known-findings.txt")
EVID = os.environ.get("DW_EVID", os.path.join(VERIF, "evidence"))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = {}          # rule -> [discharged, undecided, violated]
        self.violations = []   # dict(key, rule, where, msg)
        self.undecided_list = []
        self.samples = []
        self.rules = {}
        self.analysed = {}
        self.notes = []
        self._seen = set()
        self.soft = False      # something was not digestible: missing instances are then expected

    def rule(self, name, text, minimum=1):
        """declare a rule; `minimum` = instances confirmed by hand on the reference tree"""
        self.rules[name] = (text, minimum)
        self.obl.setdefault(name, [0, 0, 0])

    def ok(self, rule, what=None, n=1):
        self.obl.setdefault(rule, [0, 0, 0])[0] += n
        if what and len([s for s in self.samples if s["rule"] == rule]) < 3:
            self.samples.append({"rule": rule, "obligation": what, "verdict": "holds"})

    def undecided(self, rule, what):
        self.obl.setdefault(rule, [0, 0, 0])[1] += 1
        self.undecided_list.append({"rule": rule, "obligation": what})

    def bad(self, rule, key, where, msg):
        """positive evidence of a violation. key: stable identity (no line numbers)"""
        self.obl.setdefault(rule, [0, 0, 0])[2] += 1
        k = "%s|%s" % (rule, key)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append({"key": k, "rule": rule, "where": where, "message": msg})

    @contextlib.contextmanager
    def guard(self, rule, what):
        """one obligation that the machinery cannot digest is undecided, not the end of the analysis"""
        try:
            yield
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("DW_STRICT"):
                raise
            self.soft = True
            self.undecided(rule, "%s (not digestible: %s: %s)" % (what, type(e).__name__, e))

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = [x.strip() for x in line[len("known:"):].split("::", 2)]
            if len(parts) == 3:
                pid, key, what = parts
                out[(pid.replace("property=", ""), key)] = what
    return out


def explanation(pid):
    """how the property is decided, as registered in the manifest"""
    import json as _json
    try:
        m = _json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "MANIFEST.json")))
        c = next(c for c in m["checks"] if c["property"] == pid)
        return "%s. %s" % (c["technique"], c.get("level_note", ""))
    except (OSError, StopIteration, KeyError, ValueError):
        return "static analysis of the current source; see DESIGN.md"


def write_evidence(ctx, wall, spec, nviol, known):
    d = EVID
    os.makedirs(d, exist_ok=True)
    tot = [sum(v[i] for v in ctx.obl.values()) for i in range(3)]
    cov = {
        "explanation": explanation(ctx.pid),
        "obligations": sum(tot),
        "discharged": tot[0],
        "undecided": tot[1],
        "violated": tot[2],
        "analysed": ctx.analysed,
        "rules": {r: {"rule": ctx.rules.get(r, ("", 0))[0], "instances": sum(v), "holds": v[0],
                      "undecided": v[1], "violated": v[2], "minimum_instances": ctx.rules.get(r, ("", 0))[1]}
                  for r, v in ctx.obl.items()},
        "samples": ctx.samples[:40] or ["(no instance)"],
        "undecided_obligations": ctx.undecided_list[:60],
        "known_findings_matched": known,
        "checker_cmd": "./check %s" % ctx.pid,
        "trusted_base": ["clang 18 front end (types, overload resolution, template instantiation)",
                         "Cython 3.0.12 parser", "the rules in /verif/tools/dw"],
    }
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": spec.get("assumptions", [])}
    with open(os.path.join(d, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def run_check(pid, tier, registry):
    t0 = time.time()
    spec = registry[pid]
    ctx = Ctx(pid, tier)
    try:
        for fn in spec["run"]:
            try:
                fn(ctx)
            except AnalysisBroken:
                raise
            except Exception as e:
                # the rest of this analysis is undecided; the other ones still decide what they can
                traceback.print_exc()
                if os.environ.get("DW_STRICT"):
                    raise
                ctx.undecided(next(reversed(ctx.obl), "analysis"), "%s stopped: %s" % (fn.__name__, repr(e)[:100]))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    known = load_known()
    new, old = [], []
    for v in ctx.violations:
        if (pid, v["key"]) in known:
            old.append(v)
        else:
            new.append(v)
    # vacuity: every rule must still have the instances confirmed by hand
    broken = []
    for r, (text, minimum) in ctx.rules.items():
        n = sum(ctx.obl.get(r, (0,)))
        if n < minimum:
            broken.append("%s: %d instances, expected at least %d" % (r, n, minimum))
    write_evidence(ctx, time.time() - t0, spec, len(new), [v["key"] for v in old])
    tot = [sum(v[i] for v in ctx.obl.values()) for i in range(3)]
    print("%s: %d obligations (%d hold, %d undecided, %d violated) in %.1fs; analysed %s" % (
        pid, sum(tot), tot[0], tot[1], tot[2], time.time() - t0, json.dumps(ctx.analysed)))
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (pid, known[(pid, v["key"])], v["key"], v["where"]))
    if new:
        rp = os.path.join(EVID, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": new}, f, indent=1, default=str)
        for v in new:
            print("  %s: [%s] %s\n      key: %s" % (v["where"], v["rule"], v["message"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken and ctx.soft:
        print("UNDECIDED property=%s %s" % (pid, "; ".join(broken)))
        return 0
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, "; ".join(broken)))
        return 3
    return 0

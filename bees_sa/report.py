"""Result collection, known findings, evidence files, exit codes."""
import json
import os
import re
import sys
import time
from .facts import VERIF, REPO, AnalysisBroken

EVID = os.environ.get("BEES_SA_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    """property -> {key: text}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.rules = []          # (name, text)
        self.obl = []            # (rule, what, ok)
        self.viol = []           # dict(key, where, msg, path)
        self.functions = set()
        self.notes = []
        self.minimum = {}        # rule -> minimal instance count
        self._seen = set()
        self.cur = None
        self.states = 0

    def rule(self, name, text, minimum=1):
        self.cur = name
        self.rules.append((name, text))
        self.minimum[name] = minimum
        return self

    def ok(self, what, fn=None, rule=None):
        self.obl.append((rule or self.cur, what, True))
        if fn is not None:
            self.functions.add(fn if isinstance(fn, str) else fn.short)

    def bad(self, key, where, msg, path=None, fn=None, rule=None):
        r = rule or self.cur
        k = re.sub(r"\s+", "_", "%s:%s" % (r, key))
        self.obl.append((r, "%s %s" % (where, msg), False))
        if fn is not None:
            self.functions.add(fn if isinstance(fn, str) else fn.short)
        if (k, where) in self._seen:
            return
        self._seen.add((k, where))
        self.viol.append({"key": k, "where": where, "msg": msg, "path": path or []})

    def check(self, cond, what, key, where, msg=None, fn=None, path=None):
        if cond:
            self.ok(what, fn)
        else:
            self.bad(key, where, msg or ("violated: " + what), path, fn)
        return cond

    def count(self, rule=None):
        return sum(1 for o in self.obl if o[0] == (rule or self.cur))


def least(m):
    """instances below which a rule counts as not applied: fewer than on the
    reviewed tree are fine (sites get merged), a small fraction of them is not"""
    return min(m, max(1, m // 2))


def finish(res, prop, tier, t0, level, trusted, assumptions):
    broken = [n for n, _ in res.rules if res.count(n) < least(res.minimum.get(n, 1))]
    kf = known_findings().get(prop, {})
    new = [v for v in res.viol if v["key"] not in kf]
    old = [v for v in res.viol if v["key"] in kf]
    cov = {
        "explanation": "Static analysis of the current sources of %s. Rules: " % REPO + " | ".join("%s: %s" % (n, t) for n, t in res.rules),
        "obligations": len(res.obl),
        "discharged": sum(1 for o in res.obl if o[2]),
        "checker_cmd": "python3 -m bees_sa %s" % prop,
        "trusted_base": trusted,
        "rule_instances": {n: res.count(n) for n, _ in res.rules},
        "functions_analysed": sorted(res.functions)[:400],
        "samples": ["[%s] %s" % (o[0], o[1]) for o in res.obl[:60]],
        "path_states": res.states,
        "known_findings_seen": [v["key"] for v in old],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, _ in res.rules:
        print("  rule %-28s instances=%d" % (n, res.count(n)))
    for nt in res.notes:
        print("  note: " + nt)
    done = set()
    for v in old:
        if v["key"] not in done:
            done.add(v["key"])
            print("KNOWN-FINDING: property=%s %s at %s" % (prop, kf[v["key"]], v["where"]))
    if new:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new):
            p = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({"property": prop, "key": v["key"], "where": v["where"], "message": v["msg"], "path": v["path"],
                           "rerun": "python3 -m bees_sa %s" % prop}, f, indent=1)
            print("  violation %s at %s: %s" % (v["key"], v["where"], v["msg"]))
            for s in v["path"][-12:]:
                print("      via %s" % s)
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s: rules with too few instances: %s" % (prop, ", ".join(broken)))
        return 2
    print("HELD property=%s obligations=%d discharged=%d" % (prop, cov["obligations"], cov["discharged"]))
    return 0

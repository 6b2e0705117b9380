import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, V)
import props
from bees_sa import registry
out = []
for p in props.P:
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
    assert len(p["title"]) <= 80, p["id"]
    a = {"files": p["files"], "mechanism": [{"name": x, "where": y} for x, y in p["mech"]], "hook_needed": None}
    if p["state"]:
        a["state"] = [{"name": x, "meaning": y, "where": z} for x, y, z in p["state"]]
    if p["observe"]:
        a["observe_at"] = list(p["observe"])
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
na = dict(props.NA)
m = {"version": 1, "setup_cmd": "python3 -m bees_sa --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in props.NA],
     "notes": "Checks are static analyses of /repo's current sources (clang AST/CFG exported per run, cached by source hash). See DESIGN.md."}
for p in props.P:
    if p["id"] in na:
        continue
    if p["id"] not in registry.PROPS:
        print("no check for", p["id"])
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 -m bees_sa %s" % p["id"], "thorough_cmd": "python3 -m bees_sa --thorough %s" % p["id"],
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"] or "decides the property's structural obligations for all paths of the current source; kernel and std:: semantics are trusted"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties,", len(m["checks"]), "checks,", len(na), "n/a")

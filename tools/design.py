"""Write DESIGN.md from design_head.md, props.py, the evidence of the last run,
the self-test cases, known_findings.txt and design_tail.md."""
import json, os, re, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "selftest"))
import props, notes
from bees_sa import registry
import run as st
cases = st.load()
out = [open(os.path.join(HERE, "design_head.md")).read()]
out.append("## Properties and how each is decided\n")
na = dict(props.NA)
for p in props.P:
    i = p["id"]
    if i in na:
        continue
    mod = registry.PROPS[i][1]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    ev = json.load(open(os.path.join(V, "evidence", i + ".json")))
    rules = ev["coverage"]["explanation"].split("Rules: ", 1)[1].split(" | ")
    inst = ev["coverage"]["rule_instances"]
    out.append("*Method* (`bees_sa/%s.py` `%s`): %s.  *Quantified over*: %s.\n" % (mod, registry.PROPS[i][2], p["technique"].replace("static-analysis: ", ""), p["q"]))
    for r in rules:
        nm, tx = r.split(": ", 1)
        out.append("- `%s` (%s instances): %s" % (nm, inst.get(nm, "?"), tx))
    out.append("")
    if p["note"]:
        out.append("*Bounds and exemptions*: %s.\n" % p["note"].rstrip("."))
    if notes.N.get(i):
        out.append(notes.N[i].strip() + "\n")
    bad = [c for c in cases if i in c["props"] and c.get("expect") != "quiet"]
    ok = [c for c in cases if i in c["props"] and c.get("expect") == "quiet"]
    out.append("*Self-test*: %d mutations reported, %d behaviour-preserving edits quiet.\n" % (len(bad), len(ok)))
out.append("## Properties this family does not decide\n")
for k, v in props.NA:
    p = [x for x in props.P if x["id"] == k][0]
    out.append("- **%s %s**: %s" % (k, p["title"], v))
out.append("")
out.append("## Findings on the original tree\n")
out.append("Each was reported by the named check, confirmed by reading (and where possible by a small program), and repaired by a `fix:` commit in /repo; `known_findings.txt` has the same list.\n")
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s **%s** `%s`: %s" % (m[1], m[2], m[3], m[4]))
out.append("")
out.append("## Planted changes\n")
out.append("| id | property | needs | caught by |\n|---|---|---|---|")
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    mp = os.path.join(sd, d, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), notes.CAUGHT.get(d, m["property"])))
out.append("")
out.append(open(os.path.join(HERE, "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

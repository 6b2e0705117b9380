"""Developer helper: mkpatch.make(id, [(file, old, new)...]) writes seeded/<id>/patch.diff against /repo."""
import difflib, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, edits, repo="/repo"):
    files = {}
    for f, old, new in edits:
        t = files.setdefault(f, [open(os.path.join(repo, f)).read()] * 2)
        assert t[1].count(old) >= 1, (sid, f, old[:80])
        files[f] = [t[0], t[1].replace(old, new, 1)]
    out = ""
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    os.makedirs(os.path.join(V, "seeded", sid), exist_ok=True)
    open(os.path.join(V, "seeded", sid, "patch.diff"), "w").write(out)

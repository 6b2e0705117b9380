"""Developer self-test: apply textual mutations (expected: the named check
reports a violation) and behaviour-preserving edits (expected: every check stays
quiet) to scratch copies of the sources and run the checks on them.

  python3 selftest/run.py [name-substring ...] [--quiet] [--all]

--quiet: only the behaviour-preserving edits; --all: run every check on those

Not used by any registered check."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    for fn in sorted(os.listdir(HERE)):
        if fn.startswith("m_") and fn.endswith(".py"):
            spec = importlib.util.spec_from_file_location(fn[:-3], os.path.join(HERE, fn))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for c in m.CASES:
                c["name"] = fn[2:-3] + ":" + c["name"]
            out += m.CASES
    return out


def one(case):
    name, props, edits = case["name"], case["props"], case["edits"]
    d = tempfile.mkdtemp(prefix="bees-mut-", dir="/tmp")
    try:
        for x in ("src", "lib", "include"):
            shutil.copytree(os.path.join("/repo", x), os.path.join(d, x), ignore=shutil.ignore_patterns("*.o", "*.a", "*.dep", "bees"))
        for x in os.listdir("/repo"):
            p = os.path.join("/repo", x)
            if os.path.isfile(p):
                shutil.copy(p, d)
        if os.path.isdir("/repo/docs"):
            shutil.copytree("/repo/docs", os.path.join(d, "docs"))
        if case.get("patch"):
            r = subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", case["patch"]], capture_output=True, text=True)
            if r.returncode:
                return name, "PATCH-FAILED", r.stdout[-300:]
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old not in t:
                return name, "EDIT-FAILED", "%s: text not found: %s" % (f, old[:60])
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        env = dict(os.environ, BEES_SA_REPO=d, BEES_SA_NOCACHE="1", BEES_SA_EVIDENCE=os.path.join(d, "evidence"))
        try:
            r = subprocess.run([sys.executable, "-m", "bees_sa"] + props, cwd=VERIF, env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return name, "TIMEOUT", ""
        hits = sorted(set(re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)))
        keys = sorted(set(re.findall(r"^  violation (\S+)", r.stdout, re.M)))
        broken = re.findall(r"^ANALYSIS-BROKEN.*", r.stdout, re.M)
        want = case.get("expect", "violation")
        if broken:
            return name, "BROKEN", broken[0][:300] + "".join(re.findall(r"^.*error:.*", r.stdout + r.stderr, re.M)[:2])[:300] + r.stderr[-300:] + ("; ".join(keys)[:200])
        if want == "violation":
            want_p = set(case.get("hit", props))
            ok = bool(want_p & set(hits))
            return name, "ok" if ok else "MISSED", "; ".join(keys)[:300]
        return name, "ok" if not hits else "FALSE-ALARM", "; ".join(keys)[:300] + (r.stderr[-300:] if r.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batches(cases, size=10):
    """Combine quiet cases whose edits apply on top of each other; --batch."""
    out = []
    for c in cases:
        for b in out:
            if len(b["parts"]) < size and not c.get("patch") and applies(b["edits"], c["edits"]):
                b["parts"].append(c["name"])
                b["edits"] = b["edits"] + c["edits"]
                b["props"] = sorted(set(b["props"]) | set(c["props"]))
                break
        else:
            out.append(dict(name=c["name"], parts=[c["name"]], props=c["props"], edits=list(c["edits"]), expect="quiet", patch=c.get("patch")))
    for b in out:
        b["name"] = "+".join(b["parts"])
    return out


def applies(have, more):
    texts = {}
    def get(f):
        if f not in texts:
            texts[f] = open(os.path.join("/repo", f)).read()
        return texts[f]
    for f, old, new in have:
        texts[f] = get(f).replace(old, new, 1)
    for f, old, new in more:
        # the edit's text must be where it is in the original
        if old not in get(f):
            return False
        orig = open(os.path.join("/repo", f)).read()
        if texts[f].count(old) != orig.count(old):
            return False
        texts[f] = texts[f].replace(old, new, 1)
    return True


def main():
    cases = load()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if args:
        cases = [c for c in cases if any(a in c["name"] for a in args)]
    if "--quiet" in sys.argv:
        cases = [c for c in cases if c.get("expect") == "quiet"]
    if "--all" in sys.argv:
        for c in cases:
            if c.get("expect") == "quiet":
                c["props"] = ["ALL"]
    every = [c["id"] for c in map(json.loads, open(os.path.join(VERIF, "properties.jsonl")))]
    for c in cases:
        if c["props"] == ["ALL"]:
            c["props"] = every
    if "--batch" in sys.argv:
        cases = batches([c for c in cases if c.get("expect") == "quiet"])
    bad = 0
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for name, st, txt in ex.map(one, cases):
            print("%-12s %-40s %s" % (st, name, txt))
            sys.stdout.flush()
            bad += st != "ok"
    print("%d cases, %d not ok" % (len(cases), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

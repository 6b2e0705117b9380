"""Developer helper: try planted bugs.  seed.py <id>...
Copies /repo, builds, runs the demo on the clean tree and with the patch, runs
the tests with the patch, and runs the property's check on the patched sources."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAST = "--fast" in sys.argv     # demo + check only
NOCHECK = "--nocheck" in sys.argv


def sh(cmd, cwd, env=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def make(d):
    env = dict(os.environ, CC="gcc", CXX="g++", CFLAGS="-Wno-error", CXXFLAGS="-Wno-error", LC_ALL="C")
    return sh("rm -f lib/*.dep src/*.dep test/*.dep; make -j8 all", d, env)


def main():
    for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
        sd = os.path.join(V, "seeded", sid)
        meta = json.load(open(os.path.join(sd, "meta.json")))
        w = tempfile.mkdtemp(prefix="bees-seed-", dir="/tmp")
        try:
            d = os.path.join(w, "repo")
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            dd = os.path.join(w, "demo")
            shutil.copytree(sd, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            c0, o0 = sh("timeout 300 bash %s/demo.sh" % dd, d)
            r, o = sh("git apply %s/patch.diff" % sd, d)
            if r:
                print(sid, "PATCH FAILS", o)
                continue
            r, o = make(d)
            if r:
                print(sid, "BUILD FAILS", o[-1500:])
                continue
            c1, o1 = sh("timeout 300 bash %s/demo.sh" % dd, d)
            tests = "-"
            if not FAST:
                r, o = sh("cd test && rm -f $(make -s --no-print-directory --eval='vp-programs: ; @echo $(PROGRAMS)' vp-programs 2>/dev/null); make -k -j8 2>&1 | tail -5", d, dict(os.environ, CC="gcc", CXX="g++", CFLAGS="-Wno-error", CXXFLAGS="-Wno-error"))
                tests = "ok" if r == 0 and "Error" not in o else "FAIL " + o[-400:]
            chk = "-"
            if not NOCHECK:
                env = dict(os.environ, BEES_SA_REPO=d, BEES_SA_NOCACHE="1", BEES_SA_EVIDENCE=os.path.join(w, "ev"))
                r, o = sh("python3 -m bees_sa " + meta["property"], V, env)
                chk = {0: "MISSED", 1: "caught"}.get(r, "BROKEN %d" % r) + " " + "; ".join(x.strip()[10:90] for x in o.splitlines() if x.startswith("  violation"))[:250]
            print("%-28s clean=%d patched=%d tests=%s check[%s]=%s" % (sid, c0, c1, tests, meta["property"], chk))
            if c0 or "--show" in sys.argv:
                print("  clean:", o0[-800:])
            if not c1 or "--show" in sys.argv:
                print("  patched:", o1[-800:])
        finally:
            shutil.rmtree(w)


main()

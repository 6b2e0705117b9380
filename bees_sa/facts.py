"""Run the bfacts exporter over every translation unit of the tree under
analysis and merge the facts.

Nothing of the analysed tree is executed: the compiler front end parses and
type-checks it, the plugin writes the resolved program down."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BEES_SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """the analysis could not run, or an anchor it needs is gone"""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"-")
        h.update(b"\0")
    return h.hexdigest()


def build_exporter():
    src = os.path.join(VERIF, "exporter", "bfacts.cc")
    os.makedirs(BUILD, exist_ok=True)
    tag = _sha([src])[:16]
    so = os.path.join(BUILD, "bfacts-%s.so" % tag)
    if os.path.exists(so):
        return so
    flags = subprocess.run(["llvm-config-18", "--cppflags"], capture_output=True, text=True, check=True).stdout.split()
    tmp = so + ".%d.tmp" % os.getpid()
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-fPIC", "-shared"] + flags + [src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("exporter does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, so)
    return so


def tu_list(repo):
    """the sources the Makefiles put into libcrucible.a and bees"""
    def objs(mk, names):
        txt = open(mk).read()
        txt = txt.replace("\\\n", " ")
        out = []
        for n in names:
            m = re.search(r"^%s\s*[:+]?=\s*(.*)$" % n, txt, re.M)
            if m:
                out += [o for o in m.group(1).split() if o.endswith(".o")]
        return out
    res = []
    for sub, names in (("lib", ["CRUCIBLE_OBJS"]), ("src", ["BEES_OBJS", "PROGRAM_OBJS"])):
        for o in objs(os.path.join(repo, sub, "Makefile"), names):
            p = os.path.join(repo, sub, o[:-2] + ".cc")
            if os.path.exists(p):
                res.append(p)
    if len(res) < 20:
        raise AnalysisBroken("only %d translation units found in the Makefiles" % len(res))
    return res


def src_files(repo):
    pats = ["lib/*.cc", "lib/*.h", "lib/*.in", "src/*.cc", "src/*.h", "src/*.txt", "src/*.in", "include/**/*.h", "lib/Makefile", "src/Makefile", "makeflags", "Makefile"]
    out = []
    for p in pats:
        out += [f for f in glob.glob(os.path.join(repo, p), recursive=True) if not f.endswith("lib/configure.h")]
    return sorted(set(out))


def flags(repo, gen):
    """the preprocessor and language flags the makefiles use"""
    mk = open(os.path.join(repo, "makeflags")).read()
    std = re.search(r"-std=(c\+\+\S+)", mk)
    defs = re.findall(r"-D\S+", mk)
    fl = ["-std=" + (std.group(1) if std else "c++17"), "-I" + os.path.join(repo, "include"), "-I" + gen, "-w"]
    fl += [d for d in defs if "$" not in d]
    if not any("_FILE_OFFSET_BITS" in d for d in fl):
        fl.append("-D_FILE_OFFSET_BITS=64")
    return fl


def export(repo, extra=(), tus=None, want_key=False):
    so = build_exporter()
    key = _sha(src_files(repo) + [so])[:24]
    cache = os.path.join(BUILD, "facts-%s.pickle" % key)
    if tus is None and os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    work = tempfile.mkdtemp(prefix="bees-sa-")
    try:
        gen = os.path.join(work, "gen")
        os.makedirs(gen)
        # the only generated header: lib/configure.h
        cin = os.path.join(repo, "lib", "configure.h.in")
        if os.path.exists(cin):
            t = open(cin).read().replace("@ETC_PREFIX@", "/etc")
            open(os.path.join(gen, "configure.h"), "w").write(t)
        fl = flags(repo, gen)
        todo = tus or tu_list(repo)

        def one(tu):
            out = os.path.join(work, hashlib.md5(tu.encode()).hexdigest() + ".json")
            cmd = ["clang++", "-fsyntax-only", "-fplugin=" + so,
                   "-Xclang", "-plugin-arg-bfacts", "-Xclang", "root=" + os.path.realpath(repo) + "/",
                   "-Xclang", "-plugin-arg-bfacts", "-Xclang", "out=" + out] + fl + list(extra) + [tu]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisBroken("cannot analyse %s:\n%s" % (tu, r.stderr[-2000:]))
            with open(out) as f:
                return tu, json.load(f)
        # biggest first
        todo = sorted(todo, key=lambda p: -os.path.getsize(p))
        with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = dict(ex.map(one, todo))
        facts = merge([res[t] for t in sorted(res)])
        if tus is None and not os.environ.get("BEES_SA_NOCACHE"):
            tmp = cache + ".%d.tmp" % os.getpid()
            with open(tmp, "wb") as f:
                pickle.dump(facts, f, protocol=4)
            os.rename(tmp, cache)
            # keep the cache small
            old = sorted(glob.glob(os.path.join(BUILD, "facts-*.pickle")), key=os.path.getmtime)
            for p in old[:-6]:
                try:
                    os.unlink(p)
                except OSError:
                    pass
        return facts
    finally:
        shutil.rmtree(work, ignore_errors=True)


def merge(tus):
    types = []
    tix = {}
    fns = {}
    recs = {}
    enums = {}
    globs = {}

    def tmap(lst):
        m = []
        for t in lst:
            if t not in tix:
                tix[t] = len(types)
                types.append(t)
            m.append(tix[t])
        return m
    for d in tus:
        m = tmap(d["types"])

        def fix(o):
            if isinstance(o, dict):
                for k in ("t", "of", "ret", "base", "swt"):
                    if k in o and isinstance(o[k], int):
                        o[k] = types[m[o[k]]] if o[k] >= 0 else ""
                for k, v in o.items():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(o, list):
                for x in o:
                    if isinstance(x, (dict, list)):
                        fix(x)
        for f in d["functions"]:
            if f["id"] in fns:
                continue
            if f.get("nocfg") and f.get("impl"):
                continue
            fix(f)
            f["tu"] = d["tu"]
            fns[f["id"]] = f
        for r in d["records"]:
            if r["name"] not in recs:
                fix(r)
                r["bases"] = [types[m[b]] for b in r["bases"]]
                recs[r["name"]] = r
        for e in d["enums"]:
            enums.setdefault(e["name"], e)
        for g in d["globals"]:
            if g["name"] not in globs or (g.get("def") and not globs[g["name"]].get("def")):
                fix(g)
                globs[g["name"]] = g
    return {"functions": fns, "records": recs, "enums": enums, "globals": globs}


if __name__ == "__main__":
    import time
    t = time.time()
    f = export(REPO)
    print(len(f["functions"]), len(f["records"]), time.time() - t)

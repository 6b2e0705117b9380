"""C01 write containment, C02 path containment, C03 identity of opened files."""
from .common import *

# external functions that can modify file data or metadata reachable through a
# descriptor or a path.  first column: how the target is named.
FD_WRITERS = {"write": 0, "pwrite": 0, "pwrite64": 0, "writev": 0, "pwritev": 0, "pwritev2": 0, "ftruncate": 0, "ftruncate64": 0, "fallocate": 0,
              "posix_fallocate": 0, "fallocate64": 0, "sendfile": 0, "sendfile64": 0, "copy_file_range": 2, "splice": 2, "vmsplice": 0, "tee": 1, "fdopen": 0, "dprintf": 0, "vdprintf": 0, "aio_write": 0}
FD_META = {"fchmod", "fchown", "futimens", "futimes", "fsetxattr", "fremovexattr", "fchmodat", "fchownat", "utimensat", "futimesat", "setxattr",
           "lsetxattr", "removexattr", "lremovexattr", "chmod", "chown", "lchown", "utime", "utimes", "lutimes", "truncate", "truncate64", "link", "linkat", "symlink", "symlinkat",
           "mknod", "mknodat", "mkfifo", "mkfifoat", "mount", "umount", "umount2", "swapon", "renameat2", "sync_file_range", "remove", "rmdir", "mkdir",
           "mkdirat", "chroot", "pivot_root", "acl_set_fd", "acl_set_file", "system", "popen", "execve", "execv", "execvp", "execlp", "execl", "execle", "posix_spawn", "posix_spawnp"}
PATH_MUT = {"unlink": (None, [0]), "rename": (None, [0, 1]), "unlinkat": ([0], [1]), "renameat": ([0, 2], [1, 3])}
OPENERS = {"open": (None, 0, 1), "open64": (None, 0, 1), "openat": (0, 1, 2), "openat64": (0, 1, 2), "creat": (None, 0, None), "openat2": (0, 1, "how")}
STREAM_OPEN = {"std::basic_ofstream::basic_ofstream", "std::basic_fstream::basic_fstream", "std::basic_ofstream::open", "std::basic_fstream::open", "fopen", "freopen",
               "fopen64", "std::basic_filebuf::open"}
STD_FS_MUT = ("std::filesystem::",)

O_ACCMODE, O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_TMPFILE, O_APPEND = 3, 1, 2, 0o100, 0o1000, 0o20200000, 0o2000

# ioctl request values that only read, plus the one that shares identical data
IOC_READ = {
    0xd0009411: "TREE_SEARCH", 0xc0709411: "TREE_SEARCH_V2",
    0xd0009412: "INO_LOOKUP", 0xc0389423: "INO_PATHS", 0xc0389424: "LOGICAL_INO", 0xc038943b: "LOGICAL_INO_V2",
    0x8400941f: "FS_INFO", 0xc020660b: "FIEMAP", 0x80086601: "FS_GETFLAGS",
}
IOC_OWN = {0x40086602: "FS_SETFLAGS"}  # only on descriptors that bees may write
IOC_SHARE = {0xc0189436: "FILE_EXTENT_SAME"}


def is_open_call(s):
    return s[0] == "c" and len(s) == 4 and s[1] in OPENERS


def _path_env(an, s):
    """environment variables / constants a path expression is derived from"""
    out = set()
    for t in an.origins_sym(s):
        for x in walk(t):
            if x and x[0] == "c" and x[1] == "getenv" and x[3] and x[3][0][0] == "s":
                out.add("env:" + x[3][0][1])
            elif x and x[0] == "v":
                for y in an.origins_sym(x):
                    for z in walk(y):
                        if z and z[0] == "c" and len(z) == 4 and z[1] == "getenv" and z[3] and z[3][0][0] == "s":
                            out.add("env:" + z[3][0][1])
    return out


def is_home(an, s, depth=0):
    """does descriptor sym s denote the state directory: every non-constant
    origin is an openat() whose path comes from $BEESHOME"""
    os_ = [o for o in an.origins_sym(s, terminal=is_open_call) if not _nullish(o)]
    if not os_:
        return False
    for o in os_:
        if not is_open_call(o):
            return False
        d, p, fl = OPENERS[o[1]]
        if "env:BEESHOME" not in _path_env(an, o[3][p]):
            return False
    return True


def _nullish(o):
    """a default-constructed handle or -1/constant: no descriptor at all"""
    if o[0] == "k":
        return True
    if o[0] == "ctor" and not o[2]:
        return True
    if o[0] == "none":
        return True
    if o[0] == "o" and o[1] == "-" and all(x[0] == "k" for x in o[2:]):
        return True
    return False


def flag_values(an, s):
    """set of possible constant flag values, or None in it when unknown"""
    out = set()
    for o in an.origins_sym(s):
        k = konst(o)
        if k is None and o[0] == "g":
            g = an.P.globals.get(o[1]) or an.P.globals.get("crucible::" + o[1])
            if g and g.get("v") is not None:
                k = int(g["v"])
        out.add(k)
    return out


def open_flags(an, f, i, n):
    name = short(n["n"])
    d, p, fl = OPENERS[name]
    if fl is None:
        return {O_CREAT | O_WRONLY | O_TRUNC}
    if fl == "how":
        # flags field of the struct passed by pointer
        return how_field(an, f, i, n, "flags")
    if fl >= len(n["a"]):
        return {None}
    return flag_values(an, an.P.sym(f, n["a"][fl]))


def how_field(an, f, i, n, field):
    """values of open_how::<field> at an openat2 call: from the initialiser or
    assignments of the struct variable in the same function"""
    P = an.P
    out = set()
    an_ = f.nd(n["a"][2])
    while an_ is not None and an_["k"] in ("un", "cast"):
        an_ = f.nd(an_["s"])
    if an_ is None or an_["k"] != "ref":
        return {None}
    var = an_["var"]
    if an.var_owner.get(var, (None, None))[1] == "param":
        # forwarded by a wrapper: look at its callers
        g, _, j = an.var_owner[var]
        res = set()
        for c, ci in P.callers.get(g.id, ()):
            cn = c.nodes[ci]
            res |= how_field(an, c, ci, {"a": [0, 0, cn["a"][j]]}, field)
        return res or {None}
    rec = None
    for name, r in P.records_full.items():
        if short(name) == "open_how":
            rec = r
    for d in f.defs.get(var, ()):
        if d[0] == "decl" and d[1] is not None and d[1] >= 0:
            il = f.nd(d[1])
            if il and il["k"] == "il":
                order = ["flags", "mode", "resolve"]
                if rec:
                    order = [x["name"] for x in rec["fields"]]
                j = order.index(field)
                if j < len(il["a"]):
                    out |= flag_values(an, P.sym(f, il["a"][j]))
    for g in [f] + P.lambdas_of(f.id):
        for k in g.live_nodes():
            m = g.nodes[k]
            if m["k"] == "as":
                L = g.nd(m["L"])
                if L and L["k"] == "mem" and short(L["fd"]).endswith("::" + field):
                    b = g.nd(L["b"])
                    if b and b["k"] == "ref" and b["var"] == var:
                        if m["op"] != "=":
                            out.add(None)
                        else:
                            out = {x for x in out if x not in (0,)} | flag_values(an, P.sym(g, m["R"]))
    return out or {None}


def writable(v):
    return v is None or (v & O_ACCMODE) != 0 or v & O_CREAT or v & O_TRUNC or (v & O_TMPFILE) == O_TMPFILE


def site_name(f):
    return f.short if not f.is_lambda else (f.short or "lambda")


def key_fn(an, f):
    """stable name of a function for violation keys: lambdas are named after their owner"""
    P = an.P
    k = 0
    while f.is_lambda and k < 6:
        o = P.lambda_owner.get(f.id)
        if not o or o not in P.fns:
            break
        f = P.fns[o]
        k += 1
    return f.short


def c01(an, R):
    P = an.P
    R.rule("no-foreign-mutator", "code reachable from main never calls a function that changes metadata, truncates by path, links, mounts or runs other programs", 0)
    n_ext = 0
    for f in an.fns():
        for i, n in f.calls():
            if n["k"] != "call" or "n" not in n or P.targets(n):
                continue
            nm = short(n["n"])
            if nm.startswith("std::") and not nm.startswith(STD_FS_MUT):
                continue
            n_ext += 1
            if nm in FD_META or nm.startswith("std::filesystem::") and last(nm) in ("remove", "remove_all", "rename", "resize_file", "copy", "copy_file", "permissions",
                                                                                      "create_directory", "create_directories", "create_symlink", "create_hard_link", "last_write_time"):
                R.bad("%s:%s" % (key_fn(an, f), nm), an.where(f, i), "call of %s, which modifies the filesystem outside the dedupe interface" % nm, fn=f)
            elif nm == "syscall":
                v = konst(P.sym(f, n["a"][0]))
                R.check(v in (186, 437), "syscall(%s) in %s" % (v, f.short), "%s:syscall" % key_fn(an, f), an.where(f, i), "raw syscall %s is neither gettid nor openat2" % v, f)
    R.ok("%d external calls classified" % n_ext)
    R.minimum["no-foreign-mutator"] = 1

    R.rule("writable-open", "every open() that can write, create or truncate names a file in the state directory ($BEESHOME) or an unnamed O_TMPFILE", 2)
    for f, i, n in an.sites(set(OPENERS)):
        nm = short(n["n"])
        if P.targets(n):
            continue
        fl = open_flags(an, f, i, n)
        d, p, _ = OPENERS[nm]
        what = "%s in %s flags %s" % (nm, f.short, sorted(hex(x) if x is not None else "?" for x in fl))
        if not any(writable(v) for v in fl):
            R.ok(what + " read-only", f)
            continue
        okh = d is not None and is_home(an, P.sym(f, n["a"][d]))
        bad = []
        for v in fl:
            if not writable(v):
                continue
            if v is not None and (v & O_TMPFILE) == O_TMPFILE:
                continue
            if okh:
                continue
            bad.append(v)
        if bad and (nm == "openat" or nm == "open") and _all_dead_or_home(an, f, i, n, bad):
            bad = []
        R.check(not bad, what, "%s:%s" % (key_fn(an, f), nm), an.where(f, i),
                "%s may open a file outside $BEESHOME with flags %s" % (nm, sorted(hex(x) if x is not None else "unknown" for x in bad)), f)

    R.rule("path-mutation", "every unlink/rename acts on entries of the state directory or on the $BEESSTATUS file", 2)
    for f, i, n in an.sites(set(PATH_MUT)):
        if P.targets(n):
            continue
        nm = short(n["n"])
        ds, ps = PATH_MUT[nm]
        if ds:
            for d in ds:
                R.check(is_home(an, P.sym(f, n["a"][d])), "%s directory argument %d in %s is $BEESHOME" % (nm, d, f.short), "%s:%s" % (key_fn(an, f), nm),
                        an.where(f, i), "%s acts in a directory that is not $BEESHOME" % nm, f)
        else:
            for p in ps:
                env = _path_env(an, P.sym(f, n["a"][p]))
                if not env:
                    # wrappers: every caller's argument
                    env = set()
                R.check(env and env <= {"env:BEESSTATUS", "env:BEESHOME"}, "%s path argument %d in %s comes from %s" % (nm, p, f.short, sorted(env)),
                        "%s:%s" % (key_fn(an, f), nm), an.where(f, i), "%s acts on a path that does not come from $BEESSTATUS" % nm, f)

    R.rule("stream-open", "every output stream writes the $BEESSTATUS file", 0)
    for f, i, n in an.sites(STREAM_OPEN):
        if not n["a"]:
            continue
        s = P.sym(f, n["a"][0])
        env = _path_env(an, s)
        env |= {"env:" + x[3][0][1] for x in walk(s) if x and x[0] == "c" and x[1] == "getenv" and x[3] and x[3][0][0] == "s"}
        R.check(env and env <= {"env:BEESSTATUS", "env:BEESHOME"}, "%s in %s path from %s" % (last(short(n["n"])), f.short, sorted(env)),
                "%s:stream" % key_fn(an, f), an.where(f, i), "output stream opened on a path that does not come from $BEESSTATUS", f)

    R.rule("ioctl-codes", "every ioctl request is one of the read-only queries or the kernel's compare-and-share request", 6)
    share = []
    for f, i, n in an.sites({"ioctl"}):
        if P.targets(n):
            continue
        vals = set()
        for o in an.origins_sym(P.sym(f, n["a"][1])):
            k = konst(o)
            if k != 0:  # 0 is no request at all
                vals.add(None if k is None else k & 0xffffffff)
        ok = all(v in IOC_READ or v in IOC_SHARE or v in IOC_OWN for v in vals)
        if any(v in IOC_OWN for v in vals):
            bad, seen = _fd_bad(an, P.sym(f, n["a"][0]))
            R.check(not bad and seen, "ioctl FS_SETFLAGS in %s on %s" % (f.short, sorted(seen)), "%s:setflags" % key_fn(an, f), an.where(f, i),
                    "inode flags may be changed on a file that is not a state file or temporary file: %s" % bad[:3], f)
        if any(v in IOC_SHARE for v in vals):
            share.append((f, i))
        R.check(ok, "ioctl %s in %s" % (sorted(IOC_READ.get(v) or IOC_SHARE.get(v) or str(v) for v in vals), f.short), "%s:ioctl" % key_fn(an, f), an.where(f, i),
                "ioctl request %s is not a read-only query nor FILE_EXTENT_SAME" % sorted(hex(v) if v is not None else "unknown" for v in vals), f)
    R.check(len(share) >= 1, "the compare-and-share request is issued", "no-share", "lib/fs.cc", "no FILE_EXTENT_SAME ioctl left")

    R.rule("descriptor-writes", "every write/pwrite/ftruncate goes to a descriptor whose origin is a writable open of a state file or of an unnamed temporary file, or to the error stream", 4)
    for f, i, n in an.sites(set(FD_WRITERS)):
        if P.targets(n):
            continue
        nm = short(n["n"])
        s = P.sym(f, n["a"][FD_WRITERS[nm]])
        bad, seen = _fd_bad(an, s)
        R.check(not bad and seen, "%s in %s writes to %s" % (nm, f.short, sorted(set(seen))), "%s:%s" % (key_fn(an, f), nm), an.where(f, i),
                "%s may write to a descriptor that is not a state file or temporary file: %s" % (nm, bad[:3]), f)

    R.rule("private-maps", "every mmap is anonymous or read-only, so memory writes never reach a file", 1)
    for f, i, n in an.sites({"mmap", "mmap64"}):
        if P.targets(n):
            continue
        fl = flag_values(an, P.sym(f, n["a"][3]))
        pr = flag_values(an, P.sym(f, n["a"][2]))
        ok = all(v is not None and v & 0x20 for v in fl) or all(v is not None and not v & 2 for v in pr)
        R.check(ok, "mmap in %s flags %s" % (f.short, fl), "%s:mmap" % key_fn(an, f), an.where(f, i), "a file may be mapped writable", f)
    return ["root may issue FILE_EXTENT_SAME on descriptors opened read-only; the kernel compares the data before sharing it"]


def _fd_bad(an, s):
    """(origins that are not writable-by-design descriptors, the good ones)"""
    bad = []
    seen = []
    for o in an.origins_sym(s, terminal=is_open_call):
        if _nullish(o):
            continue
        if is_open_call(o) and _open_sym_ok(an, o):
            seen.append("%s(%s)" % (o[1], show(o[3][OPENERS[o[1]][1]], 40)))
        else:
            bad.append(show(o, 80))
    return bad, seen


def _all_dead_or_home(an, f, i, n, bad):
    """wrapper function: flags and directory both come from callers; check the
    combinations at each caller"""
    P = an.P
    d, p, fl = OPENERS[short(n["n"])]
    cs = [(c, ci) for c, ci in P.callers.get(f.id, ()) if ci >= 0 and c.id in an.reach]
    if not cs:
        return False
    for c, ci in cs:
        cn = c.nodes[ci]
        env = {}
        if "o" in cn:
            env["this"] = P.sym(c, cn["o"])
        for pr, a in zip(f.params, cn["a"]):
            env[pr["var"]] = P.sym(c, a)
        vals = flag_values(an, P.sym(f, n["a"][fl], env)) if isinstance(fl, int) else {None}
        for v in vals:
            if not writable(v):
                continue
            if v is not None and (v & O_TMPFILE) == O_TMPFILE:
                continue
            if d is not None and is_home(an, P.sym(f, n["a"][d], env)):
                continue
            return False
    return True


def _open_sym_ok(an, o):
    """an open call sym: writable only as temp file or state file"""
    d, p, fl = OPENERS[o[1]]
    if fl == "how" or fl is None or fl >= len(o[3]):
        return False
    vals = flag_values(an, o[3][fl])
    home = d is not None and is_home(an, o[3][d])
    for v in vals:
        if v is None:
            return False
        if (v & O_TMPFILE) == O_TMPFILE:
            continue
        if home and (v & O_ACCMODE):
            continue
        return False
    return True


# ------------------------------------------------------------------ C02
O_NOFOLLOW, O_NONBLOCK, O_CLOEXEC, O_NOATIME, O_NOCTTY, O_DIRECTORY, O_PATH = 0o400000, 0o4000, 0o2000000, 0o1000000, 0o400, 0o200000, 0o10000000
USER_FLAGS = {"O_NOFOLLOW": O_NOFOLLOW, "O_NONBLOCK": O_NONBLOCK, "O_CLOEXEC": O_CLOEXEC, "O_NOATIME": O_NOATIME, "O_NOCTTY": O_NOCTTY}
RESOLVE = {"RESOLVE_NO_XDEV": 1, "RESOLVE_NO_SYMLINKS": 4, "RESOLVE_BENEATH": 8}
ENOSYS = 38
TRUSTED_ENV = {"BEESHOME", "BEESSTATUS"}


def trusted_path(an, s):
    """the path text consists of constants, the command line and bees' own
    environment variables only (no name read from the filesystem)"""
    for r in an.roots(s):
        if r[0] in ("s", "k", "this", "none"):
            continue
        if r[0] == "c" and r[1] == "getenv" and r[3] and r[3][0][0] == "s" and r[3][0][1] in TRUSTED_ENV:
            continue
        if r[0] == "v" and r[1].split("@")[0] == "argv":
            continue
        if r[0] == "g" and short(r[1]) in ("optind", "optarg"):
            continue
        return False
    return True


def user_opens(an):
    P = an.P
    out = []
    for f, i, n in an.sites(set(OPENERS)):
        if P.targets(n) and short(n["n"]) != "openat2":
            continue
        d, p, fl = OPENERS[short(n["n"])]
        if not trusted_path(an, P.sym(f, n["a"][p])):
            out.append((f, i, n))
    # the raw system call inside the openat2() wrapper is the same open
    return out


def errno_is(s, val):
    e = eq_sides(s)
    if e:
        for a, b in (e, e[::-1]):
            if a[0] == "c" and a[1] == "__errno_location" and konst(b) == val:
                return True
    return False


class FallbackAut(Guarded):
    """a plain open of a filesystem-supplied name only after openat2 said ENOSYS"""
    names = ("openat", "open", "open64", "openat64", "openat2", "__errno_location")

    def __init__(self, an, sites):
        super().__init__()
        self.an = an
        self.sites_ = sites
        self.flags_checked = {}

    def guard(self, ctx, s, pol):
        if pol and errno_is(s, ENOSYS):
            return ("enosys",)
        if not pol and s[0] in ("v", "g"):
            return ("off", s)
        return None

    def site(self, ctx, n, name, recv, args):
        if (ctx.fn.id, ctx.node) not in self.sites_ or name == "openat2":
            return None

        def ok(st):
            if ("enosys",) in st:
                return True
            for t in st:
                if t[0] == "off" and self.an.latch_ok(t[1]):
                    return True
            return False
        return [(ok, "unguarded-" + name, "%s opens a name read from the filesystem without openat2's containment, and not because the kernel lacks openat2" % name)]


class LatchAut(Guarded):
    """assignments of false to the 'kernel has openat2' flag happen only after ENOSYS"""
    names = ("openat2", "__errno_location")

    def __init__(self, var):
        super().__init__()
        self.var = var
        self.bad = []

    def relevant(self, fn, i, n):
        if n["k"] == "as":
            L = fn.nd(n["L"])
            return bool(L) and L["k"] == "ref" and self.var in (("v", L["var"]), ("g", short(L["var"])))
        return super().relevant(fn, i, n)

    def guard(self, ctx, s, pol):
        if pol and errno_is(s, ENOSYS):
            return ("enosys",)
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs == self.var and konst(rhs) != 1:
            self.instances.add((ctx.fn.id, ctx.line))
            if ("enosys",) not in st:
                self.report(ctx, "latch", "the openat2 capability flag is cleared although the kernel did not report ENOSYS")
        return None


def latch_check(an, var):
    """is `var` a latch that is false only after ENOSYS was seen?"""
    P = an.P
    # initial value must be true
    init = None
    if var[0] == "v":
        ow = an.var_owner.get(var[1])
        if not ow or ow[1] != "local":
            return False
        if not (ow[2].get("st")):
            return False
        init = konst(P.sym(ow[0], ow[2]["init"])) if ow[2].get("init", -1) >= 0 else 0
        fs = [ow[0]]
    else:
        g = P.globals.get(var[1])
        init = None
        if g is not None:
            init = int(g["v"]) if g.get("v") is not None else None
            if init is None and g.get("init", -1) is not None:
                init = None
        fs = [f for f in an.fns() if any(n and n["k"] == "as" and f.nd(n["L"]) and f.nd(n["L"])["k"] == "ref" and short(f.nd(n["L"])["var"]) == var[1] for n in f.nodes)]
    if var[0] == "v" and init != 1:
        return False
    for f in fs:
        a, e, v = an.prove(f, lambda: LatchAut(var), 2)
        if v:
            return False
    return True


def c02(an, R):
    P = an.P
    uo = user_opens(an)
    ids = {(f.id, i) for f, i, n in uo}
    cache = {}

    def latch_ok(var):
        if var not in cache:
            cache[var] = latch_check(an, var)
        return cache[var]
    an.latch_ok = latch_ok

    R.rule("contained-resolution", "every openat2 request carries RESOLVE_BENEATH, RESOLVE_NO_SYMLINKS and RESOLVE_NO_XDEV", 1)
    for f, i, n in an.sites({"openat2"}):
        vals = how_field(an, f, i, n, "resolve")
        missing = [k for k, b in RESOLVE.items() if any(v is None or not v & b for v in vals)]
        R.check(not missing, "openat2 in %s resolve=%s" % (f.short, vals), "%s:resolve" % key_fn(an, f), an.where(f, i), "openat2 request lacks %s" % ", ".join(missing), f)

    R.rule("open-flags", "every open of a name read from the filesystem is read-only and carries O_NOFOLLOW, O_NONBLOCK, O_NOCTTY, O_CLOEXEC and O_NOATIME", 2)
    for f, i, n in uo:
        vals = open_flags(an, f, i, n)
        for v in sorted(vals, key=lambda x: -1 if x is None else x):
            if v is None:
                R.bad("%s:%s:flags" % (key_fn(an, f), short(n["n"])), an.where(f, i), "flags of %s are not constant" % short(n["n"]), fn=f)
                continue
            missing = [k for k, b in USER_FLAGS.items() if not v & b]
            if writable(v):
                missing.append("read-only access")
            R.check(not missing, "%s in %s flags %#x" % (short(n["n"]), f.short, v), "%s:%s:flags" % (key_fn(an, f), short(n["n"])), an.where(f, i),
                    "%s of a name read from the filesystem lacks %s" % (short(n["n"]), ", ".join(missing)), f)

    R.rule("dirfd", "every open of a name read from the filesystem is relative to a descriptor bees opened on the filesystem, never the working directory", 2)
    for f, i, n in uo:
        d, p, fl = OPENERS[short(n["n"])]
        if d is None:
            R.bad("%s:%s:dirfd" % (key_fn(an, f), short(n["n"])), an.where(f, i), "opens a filesystem-supplied name relative to the working directory", fn=f)
            continue
        os_ = an.origins_sym(P.sym(f, n["a"][d]), terminal=is_open_call)
        bad = [o for o in os_ if konst(o) is not None and konst(o) not in (-1, 0xffffffff) and konst(o) < 0]
        R.check(not bad and any(is_open_call(o) for o in os_), "%s in %s relative to %s" % (short(n["n"]), f.short, sorted({show(o, 40) for o in os_})[:4]),
                "%s:%s:dirfd" % (key_fn(an, f), short(n["n"])), an.where(f, i), "directory descriptor may be %s" % [show(o, 40) for o in bad], f)

    R.rule("fallback", "a plain openat of a name read from the filesystem happens only after openat2 failed with ENOSYS in this process", 1)
    for f, i, n in uo:
        nm = short(n["n"])
        if nm == "openat2":
            R.ok("%s uses openat2" % f.short, f)
            continue
        a, e, v = an.prove(f, lambda: FallbackAut(an, ids), 3)
        R.states += e.nstates
        v = [x for x in v if x["key"].startswith("unguarded")]
        if v:
            R.bad("%s:%s" % (key_fn(an, f), nm), an.where(f, i), v[0]["msg"], v[0]["path"], f)
        else:
            R.ok("%s in %s only after ENOSYS" % (nm, f.short), f)
    return ["the kernel implements openat2's resolve flags as documented"]


# ------------------------------------------------------------------ C03
class IdentityAut(ValueTrack):
    names = ("openat", "openat2", "open", "btrfs_get_root_id", "ioctl_iflags_get", "Stat::Stat", "Stat::fstat", "fstat")
    fields = ("st_ino", "st_dev")
    NEED = {"file": ("ino", "root", "dev", "nocow"), "dir": ("ino", "root")}

    def __init__(self, an, sites):
        super().__init__()
        self.an = an
        self.sites_ = sites

    def source(self, ctx, n, name, recv, args):
        if (ctx.fn.id, ctx.node) in self.sites_:
            d, p, fl = OPENERS[name]
            if fl == "how":
                vals = how_field_env(self.an, ctx, n)
            else:
                vals = flag_values(self.an, args[fl])
            if vals and all(v is not None and v & O_DIRECTORY for v in vals):
                return "dir"
            return "file"
        return None

    def check(self, ctx, s, pol, h):
        e = eq_sides(s)
        if e and pol:
            for a, b in (e, e[::-1]):
                ina = has(a, lambda x: x == h)
                inb = has(b, lambda x: x == h)
                if ina and not inb:
                    if a[0] == "f" and a[2].endswith("::st_ino") and self.requested(b):
                        return "ino"
                    if a[0] == "f" and a[2].endswith("::st_dev") and b[0] == "f" and b[2].endswith("::st_dev"):
                        return "dev"
                    if a[0] == "c" and last(a[1]) == "btrfs_get_root_id" and self.requested(b):
                        return "root"
        if not pol:
            for x in walk(s):
                if x[0] == "o" and x[1] == "&" and len(x) == 4:
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        if has(a, lambda y: y[0] == "c" and last(y[1]) == "ioctl_iflags_get" and has(y, lambda z: z == h)) and konst(b) is not None and konst(b) & 0x800000:
                            return "nocow"
        return None

    def requested(self, b):
        """a value that came from the request (parameter, its field) or a constant"""
        return b[0] in ("v", "k", "f", "g", "c") and not has(b, lambda x: x[0] == "f" and x[2].endswith(("::st_ino", "::st_dev")))

    def escape(self, ctx, kind, checks, h):
        miss = [c for c in self.NEED[kind] if c not in checks]
        if miss:
            self.report(ctx, "unverified-" + "-".join(miss), "a descriptor opened by path is returned without verifying its %s" %
                        ", ".join({"ino": "inode number", "root": "subvolume id", "dev": "device", "nocow": "no-COW flag"}[m] for m in miss))


def how_field_env(an, ctx, n):
    vals = how_field(an, ctx.fn, ctx.node, n, "flags")
    # prefer the calling context: the flags parameter under env
    v = None
    for d in ctx.fn.defs.get((ctx.fn.nd(n["a"][2]) or {}).get("var", ""), ()):
        pass
    for p in ctx.fn.params:
        if "flags" in p["name"] and ctx.env and p["var"] in ctx.env:
            v = flag_values(an, ctx.env[p["var"]])
    return v or vals


class FidAut(Guarded):
    """a range that has both a descriptor and an inode identity compares them"""
    names = ("BeesFileId::BeesFileId", "operator==", "BeesFileId::operator==", "BeesFileId::operator!=")
    fields = ("BeesFileRange::m_fid", "BeesFileRange::m_fd")

    def guard(self, ctx, s, pol):
        if s == ("f", ("this",), "BeesFileRange::m_fid"):
            return ("fid", pol)
        if s == ("f", ("this",), "BeesFileRange::m_fd"):
            return ("fd", pol)
        e = eq_sides(s)
        if e and pol:
            for a, b in (e, e[::-1]):
                if b == ("f", ("this",), "BeesFileRange::m_fid") and has(a, lambda x: x == ("f", ("this",), "BeesFileRange::m_fd")):
                    return ("same",)
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs == ("f", ("this",), "BeesFileRange::m_fd"):
            return [st | {("fresh",)}]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        self.instances.add(ctx.line)
        if ("fid", False) in st or ("fd", False) in st or ("fresh",) in st or ("same",) in st:
            return None
        self.report(ctx, "unchecked-fd", "a range that carries both a descriptor and an inode identity is handed out without comparing them")
        return None


def c03(an, R):
    P = an.P
    uo = user_opens(an)
    ids = {(f.id, i) for f, i, n in uo}
    R.rule("verified-open", "every descriptor obtained by resolving a filesystem-supplied path is verified (inode number and subvolume id; for files also device and no-COW flag) before it is returned from the lookup", 2)
    for f, i, n in uo:
        a, e, v = an.prove(f, lambda: IdentityAut(an, ids), 4, throw=False)
        R.states += e.nstates
        if v:
            for x in v:
                R.bad("%s:%s" % (x["fn"], x["key"]), x["where"], x["msg"], x["path"], f)
        else:
            R.ok("%s in %s: every escaping path verified" % (short(n["n"]), f.short), f)

    R.rule("range-identity", "accessing a range that has both a descriptor and an inode identity compares the descriptor's inode and subvolume with it", 1)
    for f in an.P.fn("BeesFileRange::fd"):
        if not f.params or not f.blocks:
            continue
        if strip_t(f.params[0]["t"]) not in SMART:
            continue
        a, e, v = an.prove(f, FidAut, 0)
        for x in v:
            R.bad("BeesFileRange::fd:" + x["key"], x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("BeesFileRange::fd(ctx) compares identities on %d return paths" % len(a.instances), f)

    R.rule("identity-of-fd", "the identity of a descriptor is its subvolume id and inode number as reported by the kernel", 1)
    for f in P.fn("BeesFileId::BeesFileId"):
        if len(f.params) == 1 and ("Fd" in f.params[0]["t"] or f.params[0]["t"] in ("int", "const int")) and f.blocks:
            inits = {}
            for b in f.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "init" and e.get("fd"):
                        inits[last(short(e["fd"]))] = (P.sym(f, e["e"]), P.expand_calls(P.sym(f, e["e"])))
            pv = ("v", f.params[0]["var"])
            okr = any(has(v, lambda x: x[0] == "c" and last(x[1]) == "btrfs_get_root_id") and has(v, lambda x: x == pv) for v in inits.values()) or _assigned(an, f, "m_root", "btrfs_get_root_id")
            oki = any(has(v, lambda x: x[0] == "f" and x[2].endswith("::st_ino")) and has(v, lambda x: x == pv) for v in inits.values()) or _assigned(an, f, "m_ino", "st_ino")
            R.check(okr, "BeesFileId(fd) root from the kernel", "BeesFileId:root", an.where(f), "the subvolume id of a descriptor is not taken from the kernel", f)
            R.check(oki, "BeesFileId(fd) inode from the kernel", "BeesFileId:ino", an.where(f), "the inode number of a descriptor is not taken from fstat", f)
    R.rule("identity-compare", "two identities are equal only if both subvolume id and inode number are equal", 1)
    for op in ("BeesFileId::operator==", "BeesFileId::operator!="):
        for f in P.fn(op, required=False):
            r = P.pure_return(f)
            s = P.expand_calls(P.sym(f, r)) if r is not None else None
            fl = {last(x[2]) for x in walk(s or ()) if x[0] == "f"}
            if s and s[0] == "not" and s[1][0] == "o" and s[1][1] == "==" and set(s[1][2:]) == {("this",), ("v", f.params[0]["var"])} and op.endswith("!="):
                # the opposite of the == checked above
                fl = {"m_root", "m_ino"}
            R.check(fl >= {"m_root", "m_ino"}, "%s compares %s" % (op, sorted(fl)), op, an.where(f), "%s does not compare both the subvolume and the inode" % op, f)
    return ["the kernel reports inode number, subvolume id and inode flags of an open descriptor correctly"]


def _assigned(an, f, field, what):
    for g, r, kind, i in an.field_writes.get("BeesFileId::" + field, []):
        if g is f and r is not None and r >= 0:
            s = an.P.expand_calls(an.P.sym(g, r))
            if has(s, lambda x: (x[0] == "c" and last(x[1]) == what) or (x[0] == "f" and x[2].endswith("::" + what))):
                return True
    return False

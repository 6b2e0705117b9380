"""C10 saved state is replaced atomically, C11 hash table updates are locked,
fetched, dirtied and flushed."""
from .common import *
from .linear import lin, sub
from .rules_dedupe import key_fn, _peel
from .rules_scan import run, report_all
from .rules_write import flag_values
from .locks import mutex_class
from .engine import Engine

O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC = 1, 2, 0o100, 0o200, 0o1000
OPENS = {"open", "openat", "open_or_die", "openat_or_die"}
RENAMES = {"rename", "renameat", "renameat2", "rename_or_die", "renameat_or_die"}
WRITES = {"write_or_die", "pwrite_or_die", "write", "pwrite", "write_or_die_partial"}
SYNCS = {"fsync", "fdatasync", "bees_fsync"}


def fdkey(s):
    """the open call a descriptor value stands for"""
    while s and s[0] in ("ctor", "c"):
        if s[0] == "ctor" and len(s[2]) == 1 and last(s[1]) in ("Fd", "IOHandle", "shared_ptr"):
            s = s[2][0]
        elif s[0] == "c" and s[2] is not None and last(s[1]) in ("operator int", "get_fd", "operator->", "get"):
            s = s[2]
        else:
            break
    return s


def strkey(s):
    while s and s[0] == "c" and s[2] is not None and last(s[1]) in ("c_str", "data") and not s[3]:
        s = s[2]
    while s and s[0] == "ctor" and len(s[2]) >= 1 and "basic_string" in s[1]:
        s = s[2][0]
    return s


def is_stream(name):
    """opens a file for writing by path"""
    return name.startswith("std::") and ("ofstream" in name and (last(name) in ("basic_ofstream", "open")) or "basic_fstream" in name)


class Replace(Tok):
    """create exclusively, write, sync, then rename over the old file"""

    def __init__(self, an, syncers):
        self.names = tuple(x for x in OPENS | RENAMES | WRITES) + tuple(syncers)
        super().__init__()
        self.an = an
        self.syncers = syncers

    def never_enter(self, fn):
        return last(fn.short) in OPENS | RENAMES | WRITES or fn.short in self.syncers or fn.short.startswith("openat2")

    def keeps(self, t):
        return t[0] == "stream"

    def on_dtor(self, st, ctx, e, s):
        if any(t[0] == "stream" and t[1] == s for t in st):
            return [frozenset(t for t in st if not (t[0] == "stream" and t[1] == s))]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if is_stream(name) and args:
            h = ("v", None)
            h = ctx.eng._objsym(ctx.fn, ctx, ctx.node) if n["k"] == "ctor" else recv
            return [st | {("stream", h, strkey(args[0]))}]
        if l == "close" and recv is not None and any(t[0] == "stream" and t[1] == recv for t in st):
            return [frozenset(t for t in st if not (t[0] == "stream" and t[1] == recv))]
        if l in ("write_or_die", "pwrite_or_die") and args:
            k = fdkey(args[0])
            return [frozenset(t for t in st if t != ("synced", k)) | {("written", k)}]
        if name in self.syncers and args:
            return [st | {("synced", fdkey(args[0]))}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        r = super().on_call(st, ctx, n, name, recv, args)
        if l in ("write", "pwrite") and not name.startswith("std::") and recv is None and len(args) >= 3:
            # a raw write may be partial or fail silently
            return [st | {("raw", fdkey(args[0]))}]
        if l in RENAMES and recv is None and not ctx.fn.short.endswith("_or_die"):
            self.instances.add((ctx.fn.id, ctx.node))
            if len(args) >= 4:
                d0, p0, d1, p1 = args[0], strkey(args[1]), args[2], strkey(args[3])
            else:
                d0, p0, d1, p1 = None, strkey(args[0]), None, strkey(args[1])
            if p0 == p1 or d0 != d1:
                self.report(ctx, "rename-target", "the replacement is not renamed within one directory over the real name")
            if any(t[0] == "stream" and t[2] == p0 for t in st):
                self.report(ctx, "unclosed", "a file is renamed into place while its content may still be buffered in the stream")
            w = [t[1] for t in st if t[0] in ("written", "raw")]
            if not w:
                return r
            for k in w:
                if ("raw", k) in st:
                    self.report(ctx, "partial-write", "a state file is replaced although its content may not have been written completely")
                if ("synced", k) not in st:
                    self.report(ctx, "unsynced", "a state file is renamed into place before its content was flushed successfully")
                if k and k[0] == "c" and last(k[1]) in OPENS:
                    j = 1 if last(k[1]).startswith("openat") else 0
                    if strkey(k[3][j]) != p0:
                        self.report(ctx, "other-file", "the file renamed into place is not the one that was written")
        return r


class SyncFn(NameAut):
    """a function that flushes: on every normal exit the descriptor was synced
    successfully, unless the filesystem was established to be btrfs"""
    names = ("fsync", "fdatasync", "fstatfs")

    def __init__(self, an, pvar):
        super().__init__()
        self.an = an
        self.pvar = pvar
        self.syncs = 0

    def initial(self):
        return frozenset()

    def enter_always(self, fn):
        return last(fn.short).startswith("die_if")

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            e = eq_sides(s)
            for x in ([e[0], e[1]] if e else [s]):
                if x[0] == "c" and last(x[1]) in ("fsync", "fdatasync") and has(x, lambda y: y == ("v", self.pvar)):
                    zero = p if e else not p
                    if e and not any(konst(y) == 0 for y in e):
                        zero = False
                    self.syncs += 1
                    out.add("synced" if zero else "failed")
            if e and any(has(x, lambda y: y[0] == "f" and last(y[2]) == "f_type") for x in e):
                out.add("btrfs" if p else "other")
            if s[0] == "o" and s[1] == "<":
                for a, b, pol in ((s[2], s[3], p),):
                    if a[0] == "c" and last(a[1]) in ("fsync", "fdatasync") and konst(b) == 0:
                        self.syncs += 1
                        out.add("failed" if pol else "synced")
        return [frozenset(out)] if out != st else None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if "failed" in st:
            self.report(ctx, "sync-ignored", "a failed flush is not reported")
        elif "synced" not in st and not ("btrfs" in st and "other" not in st):
            self.report(ctx, "sync-skipped", "the flush is skipped although the filesystem is not known to be btrfs")
        return None


def c10(an, R):
    P = an.P
    R.rule("flush-checked", "whoever flushes a state file reports failure, and skips the flush only on btrfs (whose rename orders the data)", 1)
    syncers = {}
    for f, i, n in an.sites({"fsync", "fdatasync"}):
        syncers[f.short] = f
    for nm, f in sorted(syncers.items()):
        if not f.params:
            continue
        a, e = run(an, f, lambda: SyncFn(an, f.params[0]["var"]), R)
        if report_all(an, R, f, a):
            R.check(a.syncs > 0, "%s: every exit flushed or is on btrfs" % nm, "%s:unchecked" % nm, an.where(f), "the result of the flush is not examined", f)
    R.rule("replace", "a state file is created exclusively under a temporary name, fully written, flushed, and only then renamed over the previous version", 2)
    roots = {}
    for nm in RENAMES:
        for f, i, n in an.sites({nm}):
            if not f.short.endswith("_or_die"):
                roots[f.id] = f
    if not roots:
        raise AnalysisBroken("no rename of a state file found")
    for f in roots.values():
        a, e, v = an.prove(f, lambda: Replace(an, set(syncers)), 2)
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("replacement in %s" % f.short, f)
    R.rule("no-in-place", "content is written with the file-writing helpers only to descriptors of newly, exclusively created files (or the hash table file and temporary files)", 1)
    for nm in ("write_or_die", "write"):
        for f, i, n in an.sites({nm}):
            if f.short.startswith("write_or_die") or "o" in n or len(n.get("a", ())) < 2:
                continue
            k = fdkey(P.sym(f, n["a"][0]))
            if k[0] == "c" and last(k[1]) in OPENS:
                fl = open_sym_flags(an, f, k)
                ok = fl is not None and all(x & O_CREAT and x & O_EXCL for x in fl)
                R.check(ok, "written file is created exclusively in %s" % f.short, "%s:in-place" % f.short, an.where(f, i),
                        "a state file is written without creating it exclusively under a new name", f)
    for f in an.fns():
        ren = None
        for i, n in f.calls():
            nm = short(n.get("n", ""))
            if not (is_stream(nm) and n.get("a")):
                continue
            if ren is None:
                ren = set()
                for j, m in f.calls():
                    if last(short(m.get("n", ""))) in RENAMES and m.get("a"):
                        ren.add(strkey(P.sym(f, m["a"][1 if len(m["a"]) >= 4 else 0])))
            R.check(strkey(P.sym(f, n["a"][0])) in ren, "stream in %s writes a temporary that is renamed" % f.short, "%s:stream-in-place" % f.short, an.where(f, i),
                    "a file is written in place through a stream instead of being replaced by rename", f)
    R.rule("size-bounds", "a state file larger than its limit is neither written nor read back", 2)
    for f in P.fn("BeesStringFile::write") + P.fn("BeesStringFile::read"):
        a, e = run(an, f, lambda: SizeGuard(an, f.short.endswith("write")), R)
        if report_all(an, R, f, a):
            R.check(a.n > 0, "size checked in %s" % f.short, "%s:none" % f.short, an.where(f), "no write/read found", f)
    R.rule("stale-temporary", "a left-over temporary from an interrupted save is removed before the exclusive creation", 1)
    for f in roots.values():
        for g in (f,):
            a, e = run(an, g, lambda: Unlinked(an), R)
            if a.n and report_all(an, R, g, a):
                R.ok("left-over temporary removed first in %s" % g.short, g)
    return ["rename is atomic and, on btrfs, flushes the renamed file's data before it becomes visible"]


FLAGPOS = {"open": 1, "openat": 2, "open_or_die": 1, "openat_or_die": 2}


def const_flags(an, f, n):
    """all possible flag words of an open call, or None if unknown"""
    p = FLAGPOS.get(last(short(n.get("n", ""))))
    if p is None or p >= len(n["a"]):
        return None
    v = flag_values(an, an.P.sym(f, n["a"][p]))
    return v if v and all(isinstance(x, int) for x in v) else None


def open_sym_flags(an, f, k):
    for i, n in f.calls():
        if last(short(n.get("n", ""))) in OPENS and an.P.sym(f, i) == k:
            return const_flags(an, f, n)
    return None


class SizeGuard(Tok):
    names = ("openat_or_die", "openat", "read_string", "unlinkat")

    def __init__(self, an, writing):
        super().__init__()
        self.an = an
        self.writing = writing
        self.n = 0

    def never_enter(self, fn):
        return fn.short in ("read_string", "openat_or_die")

    def guard(self, ctx, s, pol):
        if s[0] == "o" and s[1] in ("<", "<=") and len(s) == 4:
            lim = lambda x: has(x, lambda y: y[0] == "f" and last(y[2]) == "m_limit")
            if lim(s[3]) and not lim(s[2]) and pol:
                return ("small", sizekey(s[2]))
            if lim(s[2]) and not lim(s[3]) and not pol:
                return ("small", sizekey(s[3]))
        return None

    def site(self, ctx, n, name, recv, args):
        if ctx.fn.is_noise(ctx.node):
            return None
        if self.writing and name in ("openat_or_die", "unlinkat"):
            self.n += 1
            return [(lambda st: any(t[0] == "small" and "size" in t[1] for t in st), "unbounded-write", "a save touches the files before its size was checked against the limit")]
        if not self.writing and name == "read_string":
            self.n += 1
            return [(lambda st: any(t[0] == "small" for t in st), "unbounded-read", "a state file is read without bounding its size")]
        return None


def sizekey(s):
    return "size" if has(s, lambda x: x[0] == "c" and last(x[1]) in ("size", "length")) else "other"


class Unlinked(Tok):
    names = ("unlinkat", "unlink", "openat_or_die", "openat")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "unlinkat" and len(args) == 3:
            return [st | {("gone", args[0], strkey(args[1]))}]
        if name in ("openat_or_die", "openat") and len(args) >= 3 and not ctx.stack:
            fl = const_flags(self.an, ctx.fn, ctx.fn.nodes[ctx.node])
            if fl and any(x & O_EXCL for x in fl):
                self.n += 1
                if ("gone", args[0], strkey(args[1])) not in st:
                    self.report(ctx, "stale-temporary", "the exclusive creation can fail for ever on a temporary left over from an interrupted save")
        return None


# --------------------------------------------------------------------- C11
TABLE_PTRS = {"m_cell_ptr", "m_byte_ptr", "m_bucket_ptr", "m_extent_ptr", "m_void_ptr"}
EM = "BeesHashTable::ExtentMetaData::"
EXT_MUTEX = "ExtentMetaData::m_mutex_ptr"


def ptr_type(t):
    return " ".join(x for x in t.replace("*", " * ").replace("&", " & ").split() if x not in ("const", "struct", "union", "class"))


def is_cell_ptr(t):
    return last(ptr_type(t)) in ("Cell *", "Bucket *", "Extent *", "Cell * &")


def table_fns(an):
    """methods of the hash table and their lambdas"""
    P = an.P
    out = []
    for f in an.fns():
        o = f
        k = 0
        while o.is_lambda and P.lambda_owner.get(o.id) in P.fns and k < 8:
            o = P.fns[P.lambda_owner[o.id]]
            k += 1
        if not o.cls and any(is_cell_ptr(p["t"]) for p in o.params):
            out.append((f, o))
            continue
        if o.cls and last(o.cls.rstrip(">")) == "BeesHashTable" or short(o.cls or "") == "BeesHashTable":
            out.append((f, o))
    return out


def ext_locked(an, f, i):
    return any((mutex_class(m) or "").endswith(EXT_MUTEX) for m in an.L.held(f, i) or ())


ADDR_ONLY = {"mlock", "madvise", "munmap", "mmap", "mmap_or_die", "make_pair", "madvise_or_die", "munlock"}


def idx_of(s):
    """hash_to_extent_index(h) -> ('H', h); plain index -> itself"""
    while s and s[0] == "ctor" and len(s[2]) == 1:
        s = s[2][0]
    if s and s[0] == "c" and last(s[1]) == "hash_to_extent_index" and len(s[3]) == 1:
        return ("H", s[3][0])
    return s


def meta_at(s):
    """the extent index in <...>.m_extent_metadata.at(x).<field> / [x]"""
    while s:
        if s[0] == "c" and s[2] is not None and last(s[1]) in ("at", "operator[]") and s[3] and has(s[2], lambda y: y[0] == "f" and last(y[2]) == "m_extent_metadata"):
            return idx_of(s[3][0])
        if s[0] == "i" and has(s[1], lambda y: y[0] == "f" and last(y[2]) == "m_extent_metadata"):
            return idx_of(s[2])
        if s[0] == "f":
            s = s[1]
        elif s[0] == "c" and s[2] is not None:
            s = s[2]
        elif s[0] == "o" and len(s) == 3:
            s = s[2]
        elif s[0] == "ctor" and len(s[2]) >= 1:
            s = s[2][0]
        else:
            return None
    return None


def bucket_hash(s):
    """h in m_bucket_ptr[h % m_buckets]"""
    for x in walk(s):
        if x and x[0] == "i" and has(x[1], lambda y: y[0] == "f" and last(y[2]) == "m_bucket_ptr"):
            e = x[2]
            if e[0] == "o" and e[1] == "%" and has(e[3], lambda y: y[0] == "f" and last(y[2]) == "m_buckets"):
                return e[2]
    return None


class HashOp(NameAut):
    """per operation: the extent is loaded, locked, changed, marked dirty - all
    for the same extent and within one critical section.
    tokens: ("fetched", x) ("locked", x) ("pending", x) ("loading",)"""
    names = ("get_cell_range", "BeesHashTable::get_cell_range")
    fields = (EM + "m_mutex_ptr", EM + "m_dirty", EM + "m_missing", "e_addr", "e_hash")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.ranges = 0
        self.writes = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return last(fn.short) in ("hash_to_extent_index", "get_extent_range", "operator<<") or "::Cell::" in fn.short

    def meta(self, s, field):
        return s[0] == "f" and last(s[2]) == field and meta_at(s) is not None

    def on_branch(self, st, ctx, facts):
        add = set()
        for s, p in facts:
            if self.meta(s, "m_missing") and not p:
                add.add(("fetched", meta_at(s)))
        return [st | add] if add else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if self.meta(lhs, "m_missing"):
            if konst(rhs) == 0:
                return [st | {("fetched", meta_at(lhs)), ("loading",)}]
            return [frozenset(t for t in st if t[0] not in ("fetched", "loading"))]
        if self.meta(lhs, "m_dirty"):
            x = meta_at(lhs)
            if konst(rhs) == 1:
                if any(t == ("pending", x) for t in st) or not any(t[0] == "pending" for t in st):
                    return [frozenset(t for t in st if t != ("pending", x)) | {("dirtied", x)}]
                self.report(ctx, "wrong-extent", "the extent marked dirty is not the one that was changed")
            return None
        store, moved = cell_store(ctx.fn, n)
        if store and not moved:
            self.writes += 1
            if ("loading",) in st:
                return None
            lk = [t[1] for t in st if t[0] == "locked"]
            if not lk:
                self.report(ctx, "unlocked-write", "a table cell is changed without holding the lock of its extent")
                return None
            return [st | {("pending", x) for x in lk if ("dirtied", x) not in st}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "unlock" and recv is not None and "unique_lock" in name:
            return self.release(st, ctx)
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "get_cell_range" and len(args) == 1:
            return self.at_range(st, ctx, args[0])
        if n["k"] == "ctor" and l in ("unique_lock", "lock_guard", "scoped_lock") and args:
            x = meta_at(args[0])
            if x is not None and has(args[0], lambda y: y[0] == "f" and last(y[2]) == "m_mutex_ptr"):
                return [st | {("locked", x)}]
        return None

    def at_range(self, st, ctx, h):
        self.ranges += 1
        self.instances.add((ctx.fn.id, ctx.node))
        x = ("H", h)
        if ("fetched", x) not in st:
            self.report(ctx, "not-fetched", "a bucket is used although its extent may not have been loaded from the hash table file")
        if ("locked", x) not in st:
            self.report(ctx, "other-lock", "a bucket is used without holding the lock of the extent it belongs to")
        return None

    def release(self, st, ctx):
        if any(t[0] == "pending" for t in st):
            self.report(ctx, "not-dirty", "the extent is unlocked after a cell was changed without being marked for writing back")
        r = frozenset(t for t in st if t[0] not in ("locked", "pending", "loading", "dirtied"))
        return [r] if r != st else None

    def on_dtor(self, st, ctx, e, s):
        if strip_t(e.get("t", "")) in ("std::unique_lock", "std::lock_guard", "std::scoped_lock"):
            m = self.guards(ctx.fn, e.get("var"))
            if m:
                return self.release(st, ctx)
        return None

    def guards(self, fn, var):
        """does guard variable var protect an extent"""
        for d in fn.defs.get(var, ()):
            if d[0] == "decl" and d[1] is not None and d[1] >= 0:
                s = self.an.P.sym(fn, d[1])
                return has(s, lambda y: y[0] == "f" and last(y[2]) == "m_mutex_ptr" or y[0] == "c" and last(y[1]).startswith("lock_extent"))
        return False


def through(fn, i):
    n = fn.nd(i)
    while n is not None and (n["k"] == "cast" or n["k"] == "ctor" and (n.get("cp") or n.get("mv")) and len(n.get("a", ())) == 1):
        n = fn.nd(n["s"] if n["k"] == "cast" else n["a"][0])
    return n


def pointee(n):
    """the node denotes an element reached through a pointer"""
    return n is not None and (n["k"] == "un" and n["op"] == "*" or n["k"] == "idx")


def cell_store(fn, n):
    """(is a store into a table cell, stores a value taken from another cell)"""
    if n["k"] == "call" and n.get("op") == "=" and "o" in n:
        o = through(fn, n["o"])
        if pointee(o) and last(ptr_type(o.get("t", ""))) in ("Cell", "Cell &"):
            v = through(fn, n["a"][0])
            return True, pointee(v)
    elif n["k"] == "as":
        L = through(fn, n["L"])
        if L is not None and L["k"] == "mem" and last(short(L["fd"])) in ("e_addr", "e_hash") and "::Cell::" in short(L["fd"]):
            b = through(fn, L["b"])
            if L.get("ar") or pointee(b):
                return True, False
            if b is not None and b["k"] == "ref" and ptr_type(b.get("t", "")).endswith("&"):
                return True, False
    return False, False


def is_c11_fn(f):
    return not (f.d.get("ctor") or f.d.get("dtor"))


def c11(an, R):
    P = an.P
    fns = table_fns(an)
    if not fns:
        raise AnalysisBroken("no BeesHashTable methods found")
    # ---- R1
    R.rule("locked-access", "cells and extents of the table are read and written only while the mutex of an extent is held", 15)
    for f, o in fns:
        if not is_c11_fn(o):
            continue
        for i in sorted(f.live_nodes()):
            n = f.nodes[i]
            if f.is_noise(i):
                continue
            k = n["k"]
            acc = None
            if k == "un" and n["op"] == "*" or k == "idx":
                b = f.nd(n["s"] if k == "un" else n["b"])
                if b is not None and last(ptr_type(b.get("t", ""))) in ("Cell *", "Cell * &") and "[" not in b.get("t", ""):
                    acc = "cell"
            elif k == "mem" and n.get("ar") and last(short(n["fd"])) in ("e_addr", "e_hash"):
                b = f.nd(n["b"])
                if b is not None and is_cell_ptr(b.get("t", "")):
                    acc = "cell"
            elif k in ("call", "ctor"):
                nm = short(n.get("n", ""))
                ts = [t for t in P.targets(n) if t.blocks]
                if last(nm) not in ADDR_ONLY and not n.get("op") and not (nm.startswith("std::") and last(nm) in ("pair", "tuple")):
                    for a in n.get("a", ()):
                        t = f.nd(a)
                        ty = ptr_type(t.get("t", "")) if t else ""
                        if last(ty) == "Cell *" and not ts:
                            acc = "cells passed to %s" % nm
                        elif ty in ("uint8_t *", "unsigned char *", "void *") and any(r[0] == "f" and last(r[2]) in TABLE_PTRS for r in an.roots(P.sym(f, a))):
                            acc = "bytes passed to %s" % nm
            if acc:
                R.check(ext_locked(an, f, i), "%s in %s" % (acc, f.short or o.short), "%s:unlocked:%s" % (o.short, acc.split()[0]), an.where(f, i),
                        "the hash table is accessed without holding the extent's mutex", o)
    # ---- R2, R3
    R.rule("operation", "each operation uses a bucket only after its extent was loaded, under that same extent's lock, and marks that extent dirty after changing a cell, before unlocking", 4)
    roots = {}
    for f, o in fns:
        if not is_c11_fn(o):
            continue
        for i, n in f.calls():
            if last(short(n.get("n", ""))) == "get_cell_range":
                roots[o.id] = o
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] in ("call", "as") and cell_store(f, n)[0]:
                roots[o.id] = o
    writes = 0
    for f in roots.values():
        a, e, v = an.prove(f, lambda: HashOp(an), 3, throw=False)
        R.states += e.nstates
        writes += a.writes
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("operation %s (%d bucket lookups, %d stores)" % (f.short, a.ranges, a.writes), f)
    if writes < 3:
        raise AnalysisBroken("stores into the hash table not recognised")
    # ---- R8
    R.rule("wake-writer", "marking an extent dirty leaves the table marked dirty and wakes the writer", 1)
    for f, o in fns:
        if is_c11_fn(o) and not f.is_lambda:
            ws = [i for g, r, k, i in an.field_writes.get("BeesHashTable::ExtentMetaData::m_dirty", ()) if g.id == f.id and k == "as" and konst(P.sym(g, r)) == 1]
            if ws:
                a, e = run(an, f, lambda: Wake(an), R, throw=False)
                if report_all(an, R, f, a):
                    R.ok("%s wakes the writer" % f.short, f)
    # ---- R4
    R.rule("no-lost-update", "an extent is marked clean in the critical section that copies it, and is dirty again if writing it failed", 1)
    for f, o in fns:
        if is_c11_fn(o) and not f.is_lambda and any(g.id == f.id or g.id in {x.id for x in P.lambdas_of(f.id)} for g, r, k, i in an.field_writes.get("BeesHashTable::ExtentMetaData::m_dirty", ()) if k == "as" and konst(P.sym(g, r)) == 0):
            a, e, v = an.prove(f, lambda: Flush(an), 0)
            R.states += e.nstates
            if a.clears == 0:
                continue
            for x in v:
                R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
            if not v:
                R.ok("%s: %d clearing sites" % (f.short, a.clears), f)
    # ---- R6
    R.rule("same-offset", "an extent is read from and written to its own place in the file, completely", 2)
    writers = {}
    for f in an.fns():
        for i, n in f.calls():
            l = last(short(n.get("n", "")))
            if l not in ("pread_or_die", "pwrite_or_die", "pread", "pwrite", "pread_partial_or_die") or f.is_noise(i) or not n["a"]:
                continue
            args = [P.sym(f, a) for a in n["a"]]
            isfd = lambda s: s[0] == "f" and s[2] == "BeesHashTable::m_fd"
            if not f.file.startswith("src/") or last(f.short) == l:
                continue
            for g, j, _, ok in an.at_callers(f, i, args, lambda x, l=l: io_extent(an, l, x) is None):
                if not has(_[0], isfd):
                    continue
                o = an.owner_of(g)
                R.check(ok, "%s in %s" % (l, o.short), "%s:%s" % (o.short, l), an.where(g, j), io_extent(an, l, _) or "", o)
                if "pwrite" in l:
                    writers[o.id] = o
    # ---- R5
    R.rule("final-flush", "when the writer stops, every extent is examined once more after the stop request and written if dirty", 2)
    if not writers:
        raise AnalysisBroken("no function writes hash table extents")
    loops = {}
    for w in writers.values():
        for c in an.callers_of(w):
            loops[c.id] = c
    for c in loops.values():
        a, e = run(an, c, lambda: Sweep(an, set(writers)), R, throw=False)
        if report_all(an, R, c, a):
            R.check(a.visits > 0, "%s visits every extent" % c.short, "%s:novisit" % c.short, an.where(c), "no extent is examined", c)
    outer = {}
    for c in loops.values():
        for g in an.callers_of(c):
            outer[g.id] = g
    outer = {k: g for k, g in outer.items() if g.id not in loops}
    for g in outer.values():
        a, e = run(an, g, lambda: Final(an, set(loops)), R, throw=False)
        if report_all(an, R, g, a):
            R.ok("%s ends with a complete flush" % g.short, g)
    # ---- R7
    R.rule("same-bucket", "the bucket and the extent of a hash are derived from the same slot number", 2)
    for f, o in fns:
        for i in f.live_nodes():
            n = f.nodes[i]
            if f.is_noise(i):
                continue
            if n["k"] == "idx":
                s = P.sym(f, i)
            elif n["k"] == "bin" and n["op"] == "+" and n["t"].endswith("*"):
                s = P.sym(f, i)  # array + number
                if s[0] != "o" or len(s) != 4:
                    continue
                s = ("i",) + (s[2:] if s[2][0] == "f" else (s[3], s[2]))
            else:
                continue
            b = s[1]
            if b[0] != "f":
                continue
            x = dict(lin(s[2]))
            x.pop(1, None)
            if all(t[0] in ("v", "f") for t in x):
                continue
            if last(b[2]) == "m_bucket_ptr":
                ok = is_slot(s[2])
                R.check(ok, "bucket of a hash in %s" % o.short, "%s:bucket" % o.short, an.where(f, i), "the bucket of a hash is not the hash modulo the number of buckets", o)
            elif last(b[2]) == "m_extent_ptr":
                e = s[2]
                ok = e[0] == "o" and e[1] == "/" and is_slot(e[2]) and has(e[3], lambda y: y[0] in ("g", "f", "v") and "c_buckets_per_extent" in str(y) or konst(y) is not None)
                R.check(ok, "extent of a hash in %s" % o.short, "%s:extent" % o.short, an.where(f, i), "the extent of a hash is not the one its bucket lies in", o)
    return ["reporting an exception inside catch_all does not itself throw", "threads reach the table only through BeesHashTable methods (its members are private)"]


def is_slot(e):
    return e[0] == "o" and e[1] == "%" and e[2][0] == "v" and e[3][0] == "f" and last(e[3][2]) == "m_buckets"


def ext_index(s):
    """x in m_extent_ptr[x].p_byte"""
    while s and s[0] == "f" and last(s[2]) in ("p_byte", "p_buckets", "p_cells"):
        s = s[1]
        if s and s[0] == "i" and s[1][0] == "f" and last(s[1][2]) == "m_extent_ptr":
            return s[2]
    return None


def is_base(s):
    return s[0] == "f" and last(s[2]) == "m_byte_ptr"


def io_extent(an, l, args):
    """None if the transfer is exactly one extent at its own offset"""
    buf = args[1]
    if buf[0] == "ctor" and last(buf[1]) in ("ByteVector", "vector") and len(buf[2]) >= 2:
        x, y = ext_index(buf[2][0]), ext_index(buf[2][1])
        off = args[2]
        if x is None or y is None:
            return "the data written is not an extent of the table"
    elif len(args) >= 4:
        x = ext_index(buf)
        y = None
        off = args[3]
        size = lin(args[2])
        if x is None:
            return "the data is not an extent of the table"
        sz = args[2]
        if sz[0] == "o" and sz[1] == "-" and len(sz) == 4:
            y = ext_index(sz[2])
            if ext_index(sz[3]) != x:
                return "the length is not that of one extent"
        elif an.kval(sz) not in (an.kval(("k", str(128 * 1024))),) and not has(sz, lambda q: "EXTENT" in str(q)):
            return "the length is not that of one extent"
    else:
        return "the transfer is not recognised"
    if y is not None and sub(lin(y), lin(x)) != lin(("k", "1")):
        return "the transfer does not cover exactly one extent"
    if not (off[0] == "o" and off[1] == "-" and len(off) == 4 and ext_index(off[2]) == x and is_base(off[3])):
        return "the file offset is not the extent's distance from the start of the table"
    return None


class Wake(NameAut):
    names = ("notify_one", "notify_all")
    fields = ("BeesHashTable::m_dirty", EM + "m_dirty")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and last(lhs[2]) == "m_dirty":
            if lhs[2].endswith("ExtentMetaData::m_dirty"):
                if konst(rhs) == 1:
                    if "cleared" in st:
                        return [st - {"cleared"}]
                    return [st | {"ext"}]
                return [st | {"cleared"}]
            if konst(rhs) == 1:
                if not any((mutex_class(m) or "").endswith("m_dirty_mutex") for m in self.an.L.held(ctx.fn, ctx.node) or ()):
                    self.report(ctx, "unlocked-flag", "the table is marked dirty without holding the writer's mutex, so the writer may miss it")
                return [st | {"flag"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) in ("notify_one", "notify_all") and recv is not None and has(recv, lambda y: y[0] == "f" and last(y[2]) == "m_dirty_condvar"):
            return [st | {"notify"}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and "ext" in st:
            if "flag" not in st:
                self.report(ctx, "no-flag", "an extent is marked dirty but the table is not, so the writer may sleep on")
            if "notify" not in st:
                self.report(ctx, "no-notify", "an extent is marked dirty without waking the writer")
        return None


class Flush(NameAut):
    """state: flags sect_copy, sect_clear (this critical section), split
    (a copy was taken in an earlier section that did not clear), cleared, written"""
    names = ("pwrite_or_die", "pwrite", "unlock", "lock")
    fields = (EM + "m_dirty",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.clears = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short.startswith("operator<<") or last(fn.short) in ("pwrite_or_die", "pwrite")

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "unlock" and recv is not None and "lock" in name:
            return [self.unlock(st)]
        return None

    def ignore_exc(self, ctx, n, name):
        return name.startswith("std::") and last(name) in ("at", "lock", "unlock") or last(name) == "catch_all"

    def unlock(self, st):
        r = set(st) - {"copy", "clear"}
        if "copy" in st and "clear" not in st:
            r.add("split")
        return frozenset(r)

    def on_dtor(self, st, ctx, e, s):
        if strip_t(e.get("t", "")) in ("std::unique_lock", "std::lock_guard", "std::scoped_lock"):
            return [self.unlock(st)]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if n["k"] == "ctor" and last(name) in ("ByteVector", "vector") and len(args) >= 2 and ext_index(args[0]) is not None and not ctx.fn.is_noise(ctx.node):
            return [st | {"copy"}]
        if last(name) in ("memcpy", "copy") and any(ext_index(a) is not None for a in args):
            return [st | {"copy"}]
        if last(name) in ("pwrite_or_die",):
            return [st | {"written"}]
        return None

    def on_bind(self, st, ctx, var, typ, s):
        return self.flag(st, ("v", var), s, typ)

    def flag(self, st, v, s, typ="bool"):
        """remember constant values of booleans, across the lambda boundary"""
        if "bool" not in typ:
            return None
        r = frozenset(x for x in st if x[0] != "is" or x[1] != v)
        if konst(s) is not None:
            r = r | {("is", v, bool(konst(s)))}
        return [r]

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if ("is", s, not p) in st:
                return []
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and any(x[0] == "is" and x[1] == lhs for x in st):
            return self.flag(st, lhs, rhs)
        if lhs[0] == "f" and lhs[2].endswith("ExtentMetaData::m_dirty"):
            if konst(rhs) == 0:
                self.clears += 1
                if "split" in st:
                    self.report(ctx, "lost-update", "the extent is marked clean after the lock was released since it was copied: changes made in between are never written")
                return [(st | {"clear", "cleared"}) - {"written"} if "copy" not in st and "written" not in st else st | {"clear", "cleared"}]
            return [st - {"clear", "cleared", "split"}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and "cleared" in st and "written" not in st:
            self.report(ctx, "write-failed", "an extent whose write failed stays marked clean: its changes are never written")
        return None


class Sweep(NameAut):
    """the loop over all extents: every index is found clean or handed to the
    writer, and the function ends only past the last index"""
    fields = (EM + "m_dirty", "m_extents")

    def __init__(self, an, writers):
        self.names = tuple(an.P.fns[w].short for w in writers)
        super().__init__()
        self.an = an
        self.visits = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return self.is_named(fn.short)

    def loopvar(self, s):
        return s[0] == "v"

    def on_bind(self, st, ctx, var, typ, s):
        v = ("v", var)
        if not ctx.stack and any(t[1:2] == (v,) for t in st):
            self.left(st, ctx, v)
            st = frozenset(t for t in st if t[1:2] != (v,))
        if konst(s) == 0 and not ctx.stack:
            return [st | {("from0", v)}]
        if s and s[0] == "o" and s[1] == "p++" and ("was", s[2]) in st:
            return [(st - {("was", s[2])}) | {("at", v)}]
        return [st]

    def left(self, st, ctx, v):
        if ("at", v) in st and ("done", v) not in st:
            self.report(ctx, "skipped", "an extent is passed over without being found clean or written")

    def in_decl(self, ctx):
        """the node initialises a local: x = i++"""
        f, i = ctx.fn, ctx.node
        for _ in range(4):
            i = f.parents.get(i, (-1,))[0]
            if i < 0:
                return False
            if f.nodes[i]["k"] == "decl":
                return True
            if f.nodes[i]["k"] != "cast":
                return False
        return False

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            if s[0] == "f" and s[2].endswith("ExtentMetaData::m_dirty") and not p and meta_at(s):
                out.add(("done", meta_at(s)))
            if not p:
                out |= {("done", t[1]) for t in st if t[0] == "copyof" and t[2] == s}
            if s[0] == "o" and s[1] == "<" and s[3][0] == "f" and last(s[3][2]) == "m_extents" and s[2][0] == "v":
                if p:
                    out.discard(("end", s[2]))
                    out.discard(("done", s[2]))
                    out.add(("at", s[2]))
                elif ("from0", s[2]) in st:
                    out.add(("end", s[2]))
            e = eq_sides(s)
            if e and p:
                for a, b in (e, e[::-1]):
                    if b[0] == "f" and last(b[2]) == "m_extents" and ("from0", a) in st:
                        out.add(("end", a))
            elif e and not p:
                for a, b in (e, e[::-1]):
                    if b[0] == "f" and last(b[2]) == "m_extents" and a[0] == "v":
                        out.discard(("done", a))
                        out.add(("at", a))
        return [frozenset(out)] if out != st else None

    def after_call(self, st, ctx, n, name, recv, args):
        if self.is_named(name) and args:
            self.visits += 1
            return [st | {("done", idx_of(args[0]))}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and rhs and rhs[0] == "f" and rhs[2].endswith("ExtentMetaData::m_dirty") and op == "=":
            return [frozenset(t for t in st if t[0] != "copyof" or t[2] != lhs) | {("copyof", meta_at(rhs), lhs)}]
        if lhs[0] == "v" and any(t[0] == "copyof" and t[2] == lhs for t in st):
            return [frozenset(t for t in st if t[0] != "copyof" or t[2] != lhs)]
        if lhs[0] == "v" and any(t[1] == lhs for t in st):
            if op == "p++" and ("at", lhs) in st and ("done", lhs) not in st and self.in_decl(ctx):
                return [(st - {("at", lhs)}) | {("was", lhs)}]
            self.left(st, ctx, lhs)
            r = frozenset(t for t in st if t not in (("at", lhs), ("done", lhs)) and not (t[0] == "copyof" and t[1] == lhs))
            if not (op in ("++", "p++") or op == "+=" and konst(rhs) == 1):
                r = frozenset(t for t in r if t != ("from0", lhs))
            return [r]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret":
            for t in st:
                if t[0] == "at" and ("end", t[1]) not in st and ("from0", t[1]) not in st:
                    self.left(st, ctx, t[1])
        if not ctx.stack and kind == "ret" and not any(t[0] == "end" for t in st):
            self.report(ctx, "early-exit", "the flush can end before every extent was examined")
        return None


class Final(NameAut):
    fields = ("BeesHashTable::m_stop_requested",)

    def __init__(self, an, loops):
        self.names = tuple(an.P.fns[w].short for w in loops)
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return self.is_named(fn.short)

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "f" and last(s[2]) == "m_stop_requested" and p:
                return [frozenset({"stop"})] if "flushed" not in st else None
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if self.is_named(name):
            return [st | {"flushed"}] if "stop" in st else None
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and "flushed" not in st:
            self.report(ctx, "no-final-flush", "the writer can end without a flush that started after the stop request: changes made since are lost")
        return None

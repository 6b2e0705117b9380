"""C16 failed or short input/output is never taken for success."""
from .common import *
from .linear import ValAut, sub, add, fz, mentions
from .rules_dedupe import key_fn
from .rules_scan import run, report_all

# what a failing call returns
Z = "not zero"          # 0 on success
M = "minus one"         # -1 on failure, anything else is a success
F = "false"             # a bool that is false on failure
T = "true"              # a bool that is true on failure
P_ = "MAP_FAILED"
SYS = {"open": M, "openat": M, "openat2": M, "close": Z, "fsync": Z, "fdatasync": Z, "syncfs": Z, "ftruncate": Z, "rename": Z, "renameat": Z, "renameat2": Z,
       "unlink": Z, "unlinkat": Z, "mkdirat": Z, "mkdir": Z, "ioctl": Z, "mmap": P_, "munmap": Z, "madvise": Z, "mlock": Z, "read": M, "pread": M, "pread64": M, "write": M, "pwrite": M,
       "pwrite64": M, "fstat": Z, "lstat": Z, "stat": Z, "lseek": M, "fcntl": M, "readlink": M, "readlinkat": M, "uname": Z, "sigprocmask": Z, "sigemptyset": Z, "sigaddset": Z,
       "pthread_sigmask": Z, "getrusage": Z, "posix_fadvise": Z, "readahead": M, "setrlimit": Z, "getrlimit": Z, "dup2": M, "pthread_setname_np": Z, "fallocate": Z, "dup": M,
       "linkat": Z, "link": Z, "symlinkat": Z, "fchmod": Z, "fchown": Z, "posix_fallocate": Z, "sync_file_range": Z}
# only affects performance, diagnostics or cosmetics, whatever the outcome
BEST = {"readahead", "madvise", "mlock", "pthread_setname_np", "posix_fadvise", "setrlimit", "getrlimit"}
# (function, call): removing leftovers and writing the human readable status
BEST_AT = {"unlinkat": "a leftover file that may not exist; what replaces it is created with O_EXCL or checked", "unlink": "as unlinkat"}
BEST_FN = {"BeesContext::dump_status": "the status file is informational", "bees_readahead_nolock": "reads into a scrap buffer to warm the page cache",
           "assert_no_leaked_fds": "a debugging aid"}
XFER = ("read", "pread", "pread64", "write", "pwrite", "pwrite64")
ERRNO = "__errno_location"


# the failure itself is the answer
PROBE = {"BtrfsIoctlFsInfoArgs::do_ioctl_nothrow": "a file that is not on a btrfs needs no protection from being scanned"}


# a failed lookup leaves an empty list (checked: the list is emptied before the call)
EMPTY = {"BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow"}
QUIET = ("BeesNote", "BeesTracer", "BeesTooLong", "Chatter", "ChatterBox", "ChatterTraits", "Timer")


def noise(fn):
    return fn.short.split("::")[0] in QUIET or "operator<<" in fn.short


def raw(name):
    n = name[2:] if name.startswith("::") else name
    return n if n in SYS else None


def fails(cv, ret_t):
    return cv


class Res(ValAut):
    """one function: the outcome of every system call is known when it is used.
    extra: ("last", name, cv, atom, status, errno facts); ("other", ...)"""
    def __init__(self, an, root, table):
        self.table = table
        self.names = ()
        super().__init__()
        self.an = an
        self.P = an.P
        self.root = root
        self.rets = {}          # status -> set of returned syms
        self.n = 0
        self.prop = set()       # conventions the function passes on to its callers
        self.clears = True
        self.best = root.short in BEST_FN

    def relevant(self, fn, i, n):
        return n["k"] == "call" and self.conv(short(n.get("n", "")), n.get("n", "")) is not None and not fn.is_noise(i)

    def conv(self, name, full=None):
        if name in SYS and ("::" not in name):
            return SYS[name]
        return self.table.get(name)

    def never_enter(self, fn):
        if fn.id == self.root.id:
            return False
        if fn.short.startswith("die_if_"):
            return False
        return noise(fn) or fn.is_lambda or any(self.relevant(fn, i, fn.nodes[i]) for i in fn.live_nodes()) or not self.small(fn)

    def small(self, fn):
        return (fn.file == self.root.file or fn.short.startswith("die_if_")) and sum(1 for x in fn.nodes if x) < 400 and any(x and x["k"] == "throw" for x in fn.nodes) \
            and any(strip_t(p["t"]) in ("int", "long", "ssize_t", "off_t", "bool", "unsigned long", "size_t") for p in fn.params)

    def enter_always(self, fn):
        return fn.short.startswith("die_if_") or fn.id != self.root.id and self.small(fn) and not self.never_enter(fn)

    # ------------------------------------------------------------ values
    def peel(self, a):
        while a:
            if a[0] == "ctor" and last(a[1]) in ("Fd", "IOHandle") and len(a[2]) == 1:
                a = a[2][0]
            elif a[0] == "c" and a[1].startswith("Fd::operator") and a[2] is not None and a[1] not in ("Fd::operator!", "Fd::operator=", "Fd::operator->"):
                a = a[2]
            elif a[0] == "c" and last(a[1]).startswith("die_if_") and len(a[3]) == 2:
                a = a[3][1]
            else:
                break
        return a

    def atom_of(self, st, s):
        s0 = None
        while s is not None and s != s0:
            s0 = s
            s = self.peel(s)
            r = self.one(st, s)
            if r is not None:
                s = r
        return s

    def is_fd(self, st, x):
        """x is a descriptor object, which is true when it holds one"""
        if x[0] in ("v", "f"):
            x = self.one(st, x) or x
        if x[0] == "ctor":
            return last(x[1]) == "Fd"
        if x[0] == "c":
            return any(f.ret and strip_t(f.ret).endswith("Fd") for f in self.P.by_short.get(x[1], ()))
        return False

    def call_of(self, st, s):
        """the tracked call whose result s is, or None"""
        if s is None:
            return None
        a = self.atom_of(st, s)
        for t in st[1]:
            if t[0] == "res" and t[3] == a:
                return t
        return None

    def status(self, st, t, status):
        return self.extra(st, (st[1] - {t}) | {t[:4] + (status,)})

    def outcome(self, st, s, pol):
        """(token, status) the truth of s decides, or None"""
        neg = False
        x = s
        while x[0] == "not" or x[0] == "o" and x[1] == "!" and len(x) == 3:
            x, neg = x[-1], not neg
        if x[0] == "v":
            x = self.one(st, x) or x
        while x[0] == "not" or x[0] == "o" and x[1] == "!" and len(x) == 3:
            x, neg = x[-1], not neg
        v = pol != neg
        if x[0] == "c" and x[1] == "Fd::operator!" and x[2] is not None:
            x, v = x[2], not v
        t = self.call_of(st, x)
        if t and t[2] == M and self.is_fd(st, x):
            return (t, "ok" if v else "fail")
        if t:
            cv = t[2]
            if cv == F:
                return (t, "ok" if v else "fail")
            if cv in (T, Z):
                return (t, "fail" if v else "ok")
            if cv == M and not v:
                return (t, "ok")
            return None
        e = eq_sides(x)
        if e:
            if x[1] == "!=":
                v = not v
            for a, b in (e, e[::-1]):
                t = self.call_of(st, a)
                if not t:
                    continue
                k = self.an.kval(b)
                if k is None:
                    b2 = self.one(st, b)
                    k = konst(b2) if b2 else None
                cv = t[2]
                if cv == P_:
                    return (t, "fail" if v else "ok") if k in (-1, 2 ** 64 - 1) else None
                if cv in (F, T) and k in (0, 1):
                    bad = (0 if cv == F else 1)
                    return (t, "fail" if (k == bad) == v else "ok")
                if k == -1 or k == 2 ** 64 - 1:
                    return (t, "fail" if v else "ok")
                if k == 0 and cv == Z:
                    return (t, "ok" if v else "fail")
                if v and k is not None and k >= 0:
                    return (t, "ok" if cv == M or k == 0 else "fail")
                if v and k is None and cv == M:
                    return (t, "maybe")     # equal to what was asked for
        if x[0] == "o" and len(x) == 4 and x[1] == "<":
            t = self.call_of(st, x[2])
            k = self.an.kval(x[3])
            if t and t[2] in (M, Z) and k == 0:
                return (t, "fail" if v else "ok")
            t = self.call_of(st, x[3])
            k = self.an.kval(x[2])
            if t and t[2] == M and k == -1:
                return (t, "ok" if v else "fail")
        return None

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            x, p0 = s, p
            while x[0] == "not":
                x, p0 = x[1], not p0
            e = eq_sides(x)
            if e:
                y = [z for z in e if self.an.kval(z) != 0]
                if x[1] == "!=":
                    x, p0 = x[:1] + ("==",) + x[2:], not p0
                if len(y) == 1:
                    x, p0 = y[0], not p0
            if ctx.fn.id == self.root.id and self.plain(x):
                # a condition does not change while its variables do not
                if ("truth", x, not p0) in out[1]:
                    return []
                out = self.extra(out, out[1] | {("truth", x, p0)})
            if self.is_errno(ctx, s, p):
                out = self.extra(out, out[1] | {("enoent",)})
            r = self.outcome(out, s, p)
            if r:
                t, w = r
                if t[4] in ("ok", "fail") and w in ("ok", "fail") and t[4] != w:
                    return []
                if w == "maybe":
                    w = "ok"
                    if t[4] == "fail":
                        continue
                out = self.status(out, t, w)
        return [out] if out != st else None

    def is_errno(self, ctx, s, p):
        if not p:
            return False
        e = eq_sides(s)
        return bool(e) and s[1] == "==" and any(has(x, lambda y: y[0] == "c" and last(y[1]) == ERRNO) for x in e) and any(self.an.kval(x) == 2 for x in e)

    # ------------------------------------------------------------- events
    def about(self, st, s):
        v = self.val(st, s)
        return any(t[0] == "res" and any(mentions(a, t[3]) for a, c in v) for t in st[1])

    def on_bind(self, st, ctx, var, typ, s):
        k = ("v", var)
        st = self.forget(st, k)
        if s[0] != "none" and self.about(st, s):
            f = self.val(st, s)
            if strip_t(typ).endswith("Fd") and self.call_of(st, s):
                f = frozenset({(("ctor", "Fd", (self.atom_of(st, s),)), 1)})
            return [self.put(st, k, f)]
        return [self.put(st, k, None) if k in dict(st[0]) else st]

    def plain(self, x):
        """made of local integers and constants only"""
        if x[0] == "o":
            return all(self.plain(y) for y in x[2:] if isinstance(y, tuple)) and x[1] in ("<", "==", "+", "-", "&", "%")
        return x[0] == "k" or x[0] == "v" and not any(d[0] == "outarg" for d in self.root.defs.get(x[1], ()))

    def forget(self, st, k):
        ex = frozenset(t for t in st[1] if not (t[0] == "truth" and mentions(t[1], k)))
        return (st[0], ex) if ex != st[1] else st

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        st0 = st
        st = self.forget(st, lhs)
        r = self.on_assign1(st, ctx, n, lhs, rhs, op)
        return r if r is not None else [st] if st != st0 else None

    def on_assign1(self, st, ctx, n, lhs, rhs, op):
        if n["k"] not in ("as", "un"):
            return None         # an overloaded operator, see on_call
        if op == "=" and lhs[0] == "f":
            if last(lhs[2]) == "nr_items" and self.an.kval(rhs) == 0:
                st = self.extra(st, st[1] | {("emptied",)})
                return [st]
            if self.call_of(st, rhs):
                return [self.put(st, lhs, self.val(st, rhs))]
            if lhs in dict(st[0]):
                return [self.put(st, lhs, None)]
            return None
        if op == "=" and lhs[0] == "v" and self.about(st, rhs):
            return [self.put(st, lhs, self.val(st, rhs))]
        return [self.put(st, lhs, frozenset({(("opaque", ctx.fn.id, ctx.node), 1)}))] if lhs in dict(st[0]) else None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "operator=" and recv is not None and args and name.startswith("Fd::"):
            if self.call_of(st, args[0]):
                return [self.put(st, recv, frozenset({(("ctor", "Fd", (self.atom_of(st, args[0]),)), 1)}))]
            if recv in dict(st[0]):
                t = self.call_of(st, recv)
                b = self.peel(args[0])
                st = self.put(st, recv, None)
                if t and t[4] == "fail" and b[0] == "c":
                    # something else takes the place of what could not be had
                    st = self.extra(st, st[1] - {t})
                return [st]
            return None
        if l in ("clear", "resize") and recv is not None and recv[0] == "f" and recv[1] == ("this",):
            return [self.extra(st, st[1] | {("cleared",)})]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        cv = self.conv(name)
        if cv is None or ctx.fn.is_noise(ctx.node):
            return None
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        if ("cleared",) not in st[1]:
            self.clears = False
        a = ("res of", ctx.fn.id, ctx.node)
        keep = set()
        for t in st[1]:
            if t[0] == "res":
                if t[4] == "pend" and not self.optional(t):
                    self.report(ctx, "unchecked:%s" % t[1], "%s is called while the result of %s has not been looked at" % (name, t[1]))
                if t[4] == "fail" and t[1] != name:
                    keep.add(t)
            elif t[0] not in ("enoent", "emptied"):
                keep.add(t)
        # the value numbering must not confuse this result with an earlier one
        env = {k: (frozenset({(("old", a), 1)}) if any(mentions(x, a) for x, c in f) else f) for k, f in st[0]}
        keep = {(("res",) + t[1:3] + (("old", a),) + t[4:]) if t[0] == "res" and t[3] == a else t for t in keep}
        env[ctx.sym(ctx.node)] = frozenset({(a, 1)})
        st = (frozenset(env.items()), frozenset(keep))
        return [self.extra(st, st[1] | {("res", name, cv, a, "pend")})]

    def optional(self, t):
        return self.best or t[1] in BEST or t[1] in BEST_AT or t[1] in self.optnames

    optnames = ()

    def on_return(self, st, ctx, n, s):
        if ctx.fn.id != self.root.id:
            return None
        if s[0] == "none":
            return None
        a = self.atom_of(st, s)
        t = self.call_of(st, s)
        if t and t[4] == "pend":
            self.prop.add(t[2])
            self.rets.setdefault("ok", set())
            return [self.extra(st, (st[1] - {t}) | {("retd", ("passed on",))})]
        if t and t[4] == "fail":
            self.prop.add(t[2])
            return [self.extra(st, (st[1] - {t}) | {("retd", ("passed on",))})]
        # a comparison of a result
        for pol in (True, False):
            r = self.outcome(st, s, pol)
            if r and r[0][4] == "pend" and strip_t(self.root.ret) == "bool":
                w = r[1] if r[1] != "maybe" else "ok"
                o = self.outcome(st, s, not pol)
                if o and {w, o[1]} == {"ok", "fail"}:
                    self.prop.add(F if (w == "ok") == pol else T)
                    return [self.extra(st, (st[1] - {r[0]}) | {("retd", ("passed on",))})]
        return [self.extra(st, frozenset(x for x in st[1] if x[0] != "retd") | {("retd", a)})]

    def on_leave(self, st, ctx, kind):
        if ctx.fn.id != self.root.id or kind != "ret":
            return None
        rv = [t[1] for t in st[1] if t[0] == "retd"]
        rv = rv[0] if rv else ("void",)
        failed = False
        for t in st[1]:
            if t[0] != "res" or self.optional(t):
                continue
            if t[4] == "pend":
                self.report(ctx, "unchecked:%s" % t[1], "%s returns although it never looked at the result of %s" % (self.root.short, t[1]))
            if t[4] == "fail":
                if ("enoent",) in st[1] and ("emptied",) in st[1]:
                    continue
                failed = t
        if failed:
            self.rets.setdefault("fail", set()).add((rv, failed[1]))
        elif rv != ("passed on",):
            self.rets.setdefault("ok", set()).add(rv)
        return None


def empty(f, s):
    """s is the empty object of f's return type"""
    return s[0] == "ctor" and not s[2] or s in (("k", "nullptr"), ("null",))


def convention(an, f, a):
    """how f tells its callers about a failure: (convention or None, [problems])"""
    probs = []
    fails_ = a.rets.get("fail", set())
    oks = a.rets.get("ok", set())
    cvs = set(a.prop)
    rt = strip_t(f.ret)
    for rv, nm in sorted(fails_, key=str):
        if nm in PROBE:
            continue
        if rv == ("void",):
            probs.append((nm, "%s returns to its caller as if nothing had happened when %s fails" % (f.short, nm)))
        elif rt == "bool" and konst(rv) is not None:
            w = F if konst(rv) == 0 else T
            cvs.add(w)
            if w == T and any(konst(x) == 1 for x in oks):
                probs.append((nm, "%s returns true whether %s failed or not" % (f.short, nm)))
        elif empty(f, rv):
            if rt.endswith("Fd"):
                cvs.add(M)
        elif rv in oks:
            probs.append((nm, "%s returns the same value whether %s failed or not" % (f.short, nm)))
        elif konst(rv) is not None and konst(rv) < 0:
            cvs.add(M)
    if len(cvs) > 1:
        if cvs == {M, Z}:
            cvs = {M}
        else:
            probs.append(("mixed", "%s reports failures to its callers in different ways (%s)" % (f.short, ", ".join(sorted(cvs)))))
    return (sorted(cvs)[0] if cvs else None), probs


# ------------------------------------------------------------ transfers
def ptype(p):
    return p["t"].replace("const ", "").strip()


def count_param(fn):
    """the reference parameter that reports how much was transferred"""
    for p in fn.params:
        if ptype(p) in ("size_t &", "unsigned long &", "std::size_t &", "ssize_t &", "long &"):
            return p["var"]
    return None


class Xfer(ValAut):
    """a helper around a read or write: returns normally only after everything
    was transferred between consecutive positions of the caller's buffer and
    the file, or with the amount that was"""
    def __init__(self, an, root, partial):
        self.names = ()
        super().__init__()
        self.an = an
        self.P = an.P
        self.root = root
        self.partial = partial
        self.n = 0
        self.cnt = count_param(root)
        self.size = self.buf = self.off = None
        for p in root.params:
            t = ptype(p)
            if p["var"] == self.cnt:
                continue
            if t.endswith("*") and self.buf is None:
                self.buf = p["var"]
            elif t in ("size_t", "unsigned long", "ssize_t") and self.size is None:
                self.size = p["var"]
            elif t in ("off_t", "long", "__off_t") and self.size is not None:
                self.off = p["var"]
        # the expressions for what is left to transfer
        self.left = []
        for i in root.live_nodes():
            n = root.nodes[i]
            if n["k"] == "call" and self.kind(short(n.get("n", ""))) and not root.is_noise(i):
                self.left.append((short(n["n"]), self.P.sym(root, n["a"][2], {}, 0, False)))

    def kind(self, name):
        if name in XFER:
            return "raw"
        if name in self.partial:
            return "partial"
        return None

    def initial(self):
        f = lambda v: frozenset({(("entry", v), 1)})
        ex = frozenset(("base", p["var"], f(p["var"])) for p in self.root.params if p["var"] in self.group(self.root))
        return (frozenset((("v", p["var"]), f(p["var"])) for p in self.root.params), ex)

    def relevant(self, fn, i, n):
        return n["k"] == "call" and bool(self.kind(short(n.get("n", ""))))

    def never_enter(self, fn):
        if fn.id == self.root.id:
            return False
        return noise(fn) or not self.small(fn)

    def small(self, fn):
        return fn.file == self.root.file and sum(1 for x in fn.nodes if x) < 400 and not fn.is_lambda and any(x and x["k"] == "throw" for x in fn.nodes) \
            and any(strip_t(p["t"]) in ("int", "long", "ssize_t", "off_t", "bool", "unsigned long", "size_t") for p in fn.params) \
            and not any(x and x["k"] == "call" and self.kind(short(x.get("n", ""))) for x in fn.nodes)

    def enter_always(self, fn):
        return fn.id != self.root.id and self.small(fn) and not noise(fn)

    def ignore_exc(self, ctx, n, name):
        return True

    def on_advance(self, st, ctx, d, minus):
        res = [t[1] for t in st[1] if t[0] == "res"]
        if not any(x in (frozenset({(r, 1)}), frozenset({(r, -1)})) for r in res for x in (d,)):
            self.report(ctx, "step", "the position moves by something else than the amount transferred")
        ex = frozenset(t for t in st[1] if t[0] != "res") | {("adv",)}
        return [(st[0], ex)]

    def on_call(self, st, ctx, n, name, recv, args):
        k = self.kind(name)
        if ctx.fn.id == self.root.id and last(name) == "resize" and args:
            if any(t[0] == "res" and self.val(st, args[0]) == frozenset({(t[1], 1)}) for t in st[1]):
                return [self.extra(st, st[1] | {("told",)})]
        if not k or ctx.fn.id != self.root.id or ctx.fn.is_noise(ctx.node):
            return None
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        adv = ("adv",) in st[1]
        grp = {("v", v) for v in self.group(self.root)}
        for what, i, p in (("buffer", 1, self.buf), ("amount", 2, self.size), ("file position", 3 if k == "raw" else 99, self.off)):
            if i >= len(args):
                continue
            v = self.val(st, args[i])
            if p is not None and v != frozenset({(("entry", p), 1)}):
                self.report(ctx, "%s:%s" % (name, what), "%s is called with another %s than what is left of the caller's request" % (name, what))
            if adv and not has(args[i], lambda x: x in grp):
                self.report(ctx, "%s:stuck-%s" % (name, what), "after a short transfer %s is called again with the same %s" % (name, what))
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        k = self.kind(name)
        if not k or ctx.fn.id != self.root.id or ctx.fn.is_noise(ctx.node):
            return None
        a = ("amount", ctx.fn.id, ctx.node)
        key = ctx.sym(ctx.node) if k == "raw" else args[3] if len(args) > 3 else None
        if key is None:
            return None
        ex = frozenset(t for t in st[1] if t[0] not in ("res", "done", "told")) | {("res", a)}
        env = {q: (frozenset({(("opaque", q), 1)}) if any(mentions(x, a) for x, c in f) else f) for q, f in st[0]}
        env[key] = frozenset({(a, 1)})
        return [(frozenset(env.items()), ex)]

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            neg = False
            x = s
            while x[0] == "not":
                x, neg = x[1], not neg
            v = p != neg
            e = eq_sides(x)
            done = False
            if e and (x[1] == "==") == v:
                d = sub(self.val(out, e[0]), self.val(out, e[1]))
                done = self.complete(out, d) or self.complete(out, {k: -c for k, c in d.items()})
            elif x[0] in ("v", "c", "f") and not v:
                done = self.complete(out, dict(self.val(out, x)))
            elif x[0] == "o" and x[1] == "<" and not v:
                done = self.complete(out, sub(self.val(out, x[3]), self.val(out, x[2])))
            if done:
                out = self.extra(out, out[1] | {("done",)})
        return [out] if out != st else None

    def complete(self, st, d):
        """d = 0 means that nothing is left"""
        d = fz(d)
        for nm, l in self.left:
            if d == self.val(st, l):
                return True
            for t in st[1]:
                if t[0] == "res" and d == fz(sub(self.val(st, l), {t[1]: 1})):
                    return True
        return False

    def on_return(self, st, ctx, n, s):
        if ctx.fn.id == self.root.id and s[0] != "none":
            if any(t[0] == "res" and self.val(st, s) == frozenset({(t[1], 1)}) for t in st[1]):
                return [self.extra(st, st[1] | {("told",)})]
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.fn.id != self.root.id or kind != "ret":
            return None
        if ("told",) in st[1]:
            return None
        if self.cnt is not None:
            k = ("v", self.cnt)
            v = self.val(st, k)
            b = self.bases(st).get(self.cnt)
            ok = b is not None and v == b or any(t[0] == "res" and v == frozenset({(t[1], 1)}) for t in st[1])
            if not ok:
                self.report(ctx, "count", "%s returns without having stored the amount transferred" % self.root.short)
            return None
        if ("done",) not in st[1]:
            self.report(ctx, "short", "%s can return as if everything had been transferred after a short transfer" % self.root.short)
        return None


def base_obj(s):
    while s and (s[0] == "c" and s[2] is not None and last(s[1]) in ("data", "c_str", "get", "begin") or s[0] == "o" and len(s) == 3):
        s = s[2]
    return s


def c16_xfer(an, R):
    P = an.P
    R.rule("transfer", "the read and write helpers return normally only when the whole amount went between consecutive positions of the buffer and the file, or they say how much did", 8)
    fns = [f for f in P.fns.values() if (f.id in an.reach or f.file.startswith("lib/f")) and not noise(f) and f.short not in BEST_FN]
    users = lambda names: [f for f in fns if any(f.nodes[i]["k"] == "call" and short(f.nodes[i].get("n", "")) in names and not f.is_noise(i) and len(f.nodes[i]["a"]) >= 3 for i in f.live_nodes())]
    done = set()
    partial = set()
    todo = users(set(XFER))
    if not todo:
        raise AnalysisBroken("no read or write call was found")
    while todo:
        for f in todo:
            done.add(f.id)
            if count_param(f):
                partial.add(f.short)
        for f in todo:
            a, e = run(an, f, lambda: Xfer(an, f, partial), R)
            if report_all(an, R, f, a):
                R.ok("%s transfers all or reports" % f.short, f)
        todo = [f for f in users(partial) if f.id not in done]
    # overloads that take the amount from an object
    helpers = {f.short for f in P.fns.values() if f.file.endswith("lib/fd.cc") and f.id in done} | {"read_or_die", "write_or_die", "pread_or_die", "pwrite_or_die"}
    for f in fns:
        if f.short not in helpers or f.id in done:
            continue
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] != "call" or short(n.get("n", "")) not in helpers or len(n["a"]) < 3 or f.is_noise(i):
                continue
            a = [P.sym(f, x) for x in n["a"]]
            o = base_obj(a[1])
            ok = False
            if o and o[0] == "v" and any(p["var"] == o[1] for p in f.params):
                ok = a[2] == ("c", a[2][1], o, ()) and last(a[2][1]) == "size" if a[2][0] == "c" else a[2][0] in ("k", "sizeof")
            same = short(n["n"]) == f.short and a[0] == ("v", f.params[0]["var"]) and (len(a) < 4 or a[3] == ("v", f.params[-1]["var"]))
            R.check(ok and same, "%s forwards the whole object" % f.short, "%s:forward" % key_fn(an, f.short, f), an.where(f, i), "%s does not transfer the whole object at the caller's position" % f.short, f)
    return []


def c16(an, R):
    P = an.P
    table = {}
    optional = set()
    done = {}
    R.rule("checked", "the result of every system call is looked at, and a failure leads to an exception, a retry or a result that tells the caller", 60)
    for rnd in range(6):
        changed = False
        todo = []
        for f in P.fns.values():
            if f.id not in an.reach and not f.file.startswith("lib/f") or noise(f):
                continue
            names = frozenset(short(f.nodes[i].get("n", "")) for i in f.live_nodes() if f.nodes[i]["k"] == "call" and not f.is_noise(i)
                              and (raw(short(f.nodes[i].get("n", ""))) or short(f.nodes[i].get("n", "")) in table))
            if not names:
                continue
            k = (names, frozenset((x, table.get(x)) for x in names))
            if f.id in done and done[f.id][0] == k:
                continue
            todo.append((f, k))
        if not todo:
            break
        for f, k in todo:
            Res.optnames = optional
            a, e = run(an, f, lambda: Res(an, f, dict(table)), R)
            cv, probs = convention(an, f, a)
            done[f.id] = (k, a, probs, f)
            if cv and not f.is_lambda and table.get(f.short) != cv:
                table[f.short] = cv
                changed = True
            if cv and a.clears and a.n and f.short in EMPTY:
                optional.add(f.short)
        if not changed:
            break
    for fid, (k, a, probs, f) in sorted(done.items()):
        good = report_all(an, R, f, a)
        for nm, msg in probs:
            good = False
            R.bad("%s:lost:%s" % (key_fn(an, f.short, f), nm), an.where(f), msg, [], f)
        if good:
            for i in sorted(a.instances):
                R.ok("%s: %s" % (f.short, short(P.fns[i[0]].nodes[i[1]].get("n", ""))), f)
    R.note_table = table
    c16_xfer(an, R)
    return ["errno is set by every failing system call"]

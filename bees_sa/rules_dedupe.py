"""C04 dedupe request preconditions, C05 kernel operation exclusion,
C06 own files never scanned, C07 poisonous extents are skipped, C08 data
verified before a match is used."""
from .common import *
from .linear import LinAut, lin, sub, add, neg


def obj_of(s, what, an):
    """the object whose `what` (begin/end/size/fd) s is, or None"""
    f = {"begin": "m_begin", "end": "m_end", "fd": "m_fd"}.get(what)
    s = _peel(s)
    if s[0] == "c" and len(s) == 4 and last(s[1]) == what and s[2] is not None:
        return an.canon(s[2])
    e = an.P.expand_calls(s)
    e = _peel(e)
    if f and e[0] == "f" and last(e[2]) == f:
        return an.canon(e[1])
    if what == "size" and e[0] == "o" and e[1] == "-" and len(e) == 4:
        a, b = e[2], e[3]
        if a[0] == "f" and b[0] == "f" and last(a[2]) == "m_end" and last(b[2]) == "m_begin" and a[1] == b[1]:
            return an.canon(a[1])
    if what == "fd" and s[0] == "c" and last(s[1]) == "fd" and s[2] is not None:
        return an.canon(s[2])
    return None


def _peel(t):
    while t and t[0] == "ctor" and len(t[2]) == 1:
        t = t[2][0]
    return t


class DedupGuard(Guarded):
    names = ("btrfs_extent_same", "*::is_root_ro", "*::overlaps", "BeesFileRange::size", "BeesFileRange::fd")
    fields = ()

    def __init__(self, an):
        super().__init__()
        self.an = an

    def guard(self, ctx, s, pol):
        an = self.an
        out = []
        if s[0] == "c" and len(s) == 4:
            nm = last(s[1])
            if nm == "is_root_ro" and not pol and len(s[3]) == 1:
                a = an.canon(s[3][0])
                for x in walk(a):
                    # the object whose identity's root is asked for
                    if x[0] == "c" and len(x) == 4 and last(x[1]) in ("fid", "fd") and x[2] is not None:
                        out.append(("rw", x[2]))
                    if x[0] == "f" and last(x[2]) in ("m_fid", "m_fd"):
                        out.append(("rw", x[1]))
            if nm == "overlaps" and not pol and s[2] is not None and len(s[3]) == 1:
                a, b = an.canon(s[2]), an.canon(s[3][0])
                out += [("apart", a, b), ("apart", b, a)]
        e = eq_sides(s)
        if e and pol:
            a, b = obj_of(e[0], "size", an), obj_of(e[1], "size", an)
            if a is not None and b is not None:
                out += [("samesize", a, b), ("samesize", b, a)]
        return out or None

    def establish(self, ctx, n, name, recv, args):
        if last(name) == "fd" and recv is not None and len(args) == 1:
            return [("reopened", self.an.canon(recv))]
        return ()

    def site(self, ctx, n, name, recv, args):
        if name != "btrfs_extent_same" or len(args) != 5:
            return None
        an = self.an
        A, B = obj_of(args[0], "fd", an), obj_of(args[3], "fd", an)
        k = "dedupe-request"
        if A is None or B is None:
            return [(lambda st: False, k + ":descriptors", "the descriptors given to the dedupe request are not those of a checked range pair")]
        need = []
        okargs = obj_of(args[1], "begin", an) == A and obj_of(args[4], "begin", an) == B
        need.append((lambda st: okargs, k + ":offsets", "the offsets of the dedupe request are not the starts of the ranges whose descriptors are used"))
        L = obj_of(args[2], "size", an)
        need.append((lambda st: L in (A, B), k + ":length", "the length of the dedupe request is not the size of the checked ranges"))
        need.append((lambda st: A != B, k + ":same-object", "source and destination of the dedupe request are the same range"))
        need.append((lambda st: ("rw", B) in st, k + ":readonly-target", "the dedupe request is reachable without having established that the target's subvolume is not read-only"))
        need.append((lambda st: ("samesize", A, B) in st, k + ":size", "the dedupe request is reachable without having established that both ranges have the same size"))
        need.append((lambda st: ("apart", A, B) in st, k + ":overlap", "the dedupe request is reachable without having established that the ranges do not overlap"))
        need.append((lambda st: ("reopened", A) in st and ("reopened", B) in st, k + ":reopen", "the dedupe request is reachable without having re-validated both descriptors against the inode identities"))
        return need


class StepAut(LinAut):
    """the chunk loop around the kernel's compare-and-share request"""
    names = ("BtrfsExtentSame::BtrfsExtentSame", "BtrfsExtentSame::add", "BtrfsExtentSame::do_ioctl")
    # extra: (recorded forms or None, pending?, confirmed length form or None, status facts, remaining<=0 known)

    def init_extra(self):
        return (None, None, "none")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.P = an.P
        self.complete = 0
        self.lens = {s for f, i, n in an.sites({"BtrfsExtentSame::BtrfsExtentSame"}) if len(n["a"]) == 3 for s in (an.P.sym(f, n["a"][2]),)}

    def on_call(self, st, ctx, n, name, recv, args):
        env, (rec, cur, status) = st
        if name == "BtrfsExtentSame::BtrfsExtentSame" and len(args) == 3:
            f = (("so", tuple(sorted(self.form(st, args[1]).items(), key=repr))), ("len", tuple(sorted(self.form(st, args[2]).items(), key=repr))),
                 ("sfd", tuple(sorted(self.form(st, args[0]).items(), key=repr))))
            return [(env, (rec, (f, (args[0], args[1], args[2])), status))]
        if name == "BtrfsExtentSame::add" and len(args) == 2 and cur:
            f = cur[0] + (("do", tuple(sorted(self.form(st, args[1]).items(), key=repr))), ("dfd", tuple(sorted(self.form(st, args[0]).items(), key=repr))))
            return [(env, (rec, (f, cur[1] + (args[0], args[1])), status))]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        env, (rec, cur, status) = st
        if name != "BtrfsExtentSame::do_ioctl":
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        if not cur or len(cur[1]) != 5:
            self.report(ctx, "step-unknown", "a compare-and-share request is issued whose ranges cannot be identified")
            return None
        if rec is not None:
            # state was rebased at the previous request: forms are relative to it
            self._advance(ctx, st, rec, cur[1])
            if status != "ok":
                self.report(ctx, "step-status", "another compare-and-share request is issued although the previous one was not confirmed as identical")
        self.lens.add(cur[1][2])
        # rebase: remember the expressions; their atoms now denote current values
        return [(frozenset(), (cur[1], None, "pending"))]

    def _delta(self, st, s):
        return sub(self.form(st, s), lin(s))

    def _advance(self, ctx, st, old, new):
        ds, dl, dd = self._delta(st, new[1]), self._delta(st, new[2]), self._delta(st, new[4])
        # same expressions in each iteration, or expressible over the same atoms
        if lin(old[1]) != lin(new[1]) or lin(old[2]) != lin(new[2]) or lin(old[4]) != lin(new[4]) or old[0] != new[0] or old[3] != new[3]:
            self.report(ctx, "step-shape", "successive compare-and-share requests do not use the same range expressions")
            return
        if not (ds == dd and dl == neg(ds)):
            self.report(ctx, "step-advance", "after a partial share the source, destination and remaining length do not advance by the same amount")
            return
        if not self._is_deduped(ds):
            self.report(ctx, "step-amount", "after a partial share the cursor advances by something else than the number of bytes the kernel reported as shared")

    def _is_deduped(self, d):
        return len(d) == 1 and list(d.values()) == [1] and has(list(d)[0] if isinstance(list(d)[0], tuple) else (), lambda x: x[0] == "f" and last(x[2]) == "bytes_deduped")

    def is_status(self, s):
        return s[0] == "f" and last(s[2]) == "status"

    def on_branch(self, st, ctx, facts):
        env, (rec, cur, status) = st
        if rec is None:
            # before the first request: remember what is known to be empty
            for s, p in facts:
                if s[0] == "o" and s[1] == "<" and not p:
                    rem = sub(self.form(st, s[3]), self.form(st, s[2]))
                    if any(rem == self.form(st, l) for l in self.lens):
                        return [(env, (rec, cur, "empty"))]
            return None
        ns = status
        for s, p in facts:
            e = eq_sides(s)
            if e and status in ("pending", "ok", "differs"):
                for a, b in (e, e[::-1]):
                    if self.is_status(a):
                        if konst(b) == 0:
                            if p:
                                ns = "ok"
                        elif p and konst(b) == 1:
                            ns = "differs"
            if s[0] == "f" and self.is_status(s) and not p:
                ns = "ok"
            if s[0] == "o" and s[1] == "<" and not p:
                # not (0 < remaining)
                rem = sub(self.form(st, s[3]), self.form(st, s[2]))
                if ns in ("ok", "done") and self._is_remaining(rem, rec):
                    ns = "done"
            if e and p and ns == "ok":
                rem = sub(self.form(st, e[0]), self.form(st, e[1]))
                if self._is_remaining(rem, rec) or self._is_remaining(neg(rem), rec):
                    ns = "done"
            if not e and ns == "ok" and not p and s[0] in ("v", "o") and self._is_remaining(self.form(st, s), rec):
                ns = "done"
        if ns != status:
            return [(env, (rec, cur, ns))]
        return None

    def _is_remaining(self, rem, rec):
        # remaining after this request = old length - bytes_deduped
        d = sub(lin(rec[2]), rem)
        return self._is_deduped(d)

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        env, (rec, cur, status) = st
        k = konst(s)
        if k == 0:
            return None
        if k is None:
            # the value is decided by an expression: see what its truth implies
            o = self.on_branch(st, ctx, self.P.facts_of(s, True))
            if o:
                env, (rec, cur, status) = o[0]
        if rec is None and status == "empty":
            return None
        if status != "done":
            self.report(ctx, "success-unconfirmed", "the operation can report success although not every byte was confirmed identical and shared by the kernel")
        else:
            self.complete += 1
        return None


def c04(an, R):
    P = an.P
    R.rule("request-preconditions", "on every path to the dedupe request: target subvolume established not read-only, both ranges the same size, ranges established not overlapping, both descriptors re-validated, and the request uses exactly those ranges", 1)
    for f, i, n in an.sites({"btrfs_extent_same"}):
        a, e, v = an.prove(f, lambda: DedupGuard(an), 3)
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("dedupe request in %s" % f.short, f)
            R.ok("%d paths states explored" % e.nstates)
    R.rule("single-requester", "the compare-and-share ioctl is issued only by the library's dedupe function", 1)
    owners = set()
    for f, i, n in an.sites({"BtrfsExtentSame::do_ioctl"}):
        owners.add(f.short)
        R.check(f.short == "btrfs_extent_same", "compare-and-share request issued by %s" % f.short, "%s:requester" % key_fn(an, f.short, f), an.where(f, i),
                "a compare-and-share request is issued outside the checked dedupe function", f)
    R.rule("chunk-steps", "in the dedupe function source, destination and remaining length advance together by the number of bytes the kernel shared, only after the kernel reported the data identical, and success means nothing remains", 1)
    for f in P.fn("btrfs_extent_same"):
        if not f.blocks:
            continue
        aut = StepAut(an)
        from .engine import Engine
        e = Engine(P, aut, throw=True)
        e.run(f, aut.initial())
        R.states += e.nstates
        for x in aut.violations.values():
            R.bad("btrfs_extent_same:" + x["key"], x["where"], x["msg"], x["path"], f)
        if not aut.instances:
            continue
        R.ok("chunk loop of %s, %d success returns" % (f.short, aut.complete), f)
    R.rule("readonly-query", "the read-only test consults the subvolume's flags and answers 'read-only' when they carry the read-only bit or cannot be read", 1)
    for f in P.fn("BeesRoots::is_root_ro"):
        aut = RoAut(an)
        from .engine import Engine
        e = Engine(P, aut, throw=True)
        e.run(f, aut.initial())
        R.states += e.nstates
        for x in aut.violations.values():
            R.bad("is_root_ro:" + x["key"], x["where"], x["msg"], x["path"], f)
        R.check(aut.seen, "is_root_ro reads the root flags", "is_root_ro:unused", an.where(f), "the read-only test never looks at the subvolume's flags", f)
    return ["a descriptor's kernel identity does not change while it is open"]


class RoAut(NameAut):
    """returns of false: option off, not a subvolume, or flags without the RO bit on an existing item"""
    names = ("*::root_flags", "*::is_subvol_tree", "*::root")
    fields = ("m_workaround_btrfs_send",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.seen = False

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            if has(s, lambda x: x[0] == "f" and last(x[2]) == "m_workaround_btrfs_send") and s[0] == "f" and not p:
                out.add("off")
            if s[0] == "c" and last(s[1]) == "is_subvol_tree" and not p:
                out.add("notsubvol")
            for x in walk(s):
                if x[0] == "o" and x[1] == "&" and len(x) == 4:
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        if konst(b) == 1 and has(a, lambda y: y[0] == "c" and last(y[1]) == "root_flags") or has(a, lambda y: y[0] == "f" and last(y[2]) == "flags"):
                            self.seen = True
                            if s == x or s[0] == "o" and s[1] == "==":
                                pp = p if s == x else (not p if konst(s[2]) == 0 or konst(s[3]) == 0 else p)
                                out.add("ro" if pp else "notro")
            if s[0] in ("c", "v") and not p and (s[0] == "c" and last(s[1]) == "root" or s[0] == "v"):
                out.add("noitem")
        if out != st:
            return [frozenset(out)]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        self.instances.add(ctx.line)
        k = konst(s)
        if k == 0 and not ({"off", "notsubvol"} & st):
            if "notro" not in st or "noitem" in st or "ro" in st:
                self.report(ctx, "says-writable", "the test answers 'not read-only' without having seen flags that lack the read-only bit")
        if k == 1 and ({"notro"} & st) and not ({"ro", "noitem"} & st):
            self.report(ctx, "says-readonly", "the test answers 'read-only' although the flags lack the read-only bit")
        return None


def key_fn(an, name, f):
    from .rules_write import key_fn as kf
    if isinstance(name, str) and name and "anonymous" not in name and "operator()" not in name:
        return name
    return kf(an, f)


# ------------------------------------------------------------------ C05
class HandleAut(NameAut):
    """live MultiLocker handles.  state: frozenset of (holder, key)"""
    names = ("MultiLocker::get_lock", "btrfs_extent_same", "BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow", "BtrfsIoctlLogicalInoArgs::do_ioctl", "std::shared_ptr::reset",
             "bees_throttle", "bees_usleep", "nanosleep", "std::__shared_ptr::reset")
    # calls that may not run while a handle is held
    SITES = {}

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        if n["k"] in ("call", "ctor") and last(short(n.get("n", ""))) in ("reset", "operator=", "swap") and "LockHandle" not in (n.get("n") or ""):
            return False
        return super().relevant(fn, i, n)

    def ignore_exc(self, ctx, n, name):
        # an interrupted throttle pause is not EAGAIN: it never re-enters the retry loop
        return name == "bees_throttle"

    need = {"btrfs_extent_same": "dedupe", "BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow": "logical_ino", "BtrfsIoctlLogicalInoArgs::do_ioctl": "logical_ino"}

    def on_call(self, st, ctx, n, name, recv, args):
        if name in self.need:
            # the library's own wrapper level is not a site
            self.instances.add((ctx.fn.id, ctx.node))
            keys = {k for h, k in st}
            want = self.need[name]
            if ctx.fn.short.startswith("BtrfsIoctlLogicalInoArgs::"):
                return None
            if keys != {want}:
                if not keys:
                    self.report(ctx, "unlocked:" + last(name), "%s is reached without holding the '%s' exclusion" % (name, want))
                elif want not in keys:
                    self.report(ctx, "wrong-lock:" + last(name), "%s is reached holding '%s' instead of the '%s' exclusion" % (name, ",".join(sorted(keys)), want))
                else:
                    self.report(ctx, "two-locks:" + last(name), "%s is reached holding two exclusion classes at once (self-deadlock)" % name)
        if name == "MultiLocker::get_lock":
            keys = {k for h, k in st}
            if keys:
                self.report(ctx, "nested", "the exclusion is requested while %s is already held by the same thread" % sorted(keys))
        if name == "bees_throttle":
            if st:
                self.report(ctx, "throttle-locked", "the throttle sleeps while the '%s' exclusion is held" % ",".join(sorted(k for h, k in st)))
        if last(name) == "reset" and recv is not None and st:
            r = self._h(recv)
            return [frozenset(x for x in st if x[0] != r and self._init_of(ctx, x[0]) != r)]
        return None

    def _init_of(self, ctx, h):
        """once-initialised variables are symbolised as their initialiser"""
        if h[0] != "v":
            return None
        j = ctx.fn.single_def(h[1])
        return self._h(ctx.sym(j)) if j is not None and j >= 0 else None

    @staticmethod
    def _h(s):
        while s and s[0] == "ctor" and len(s[2]) == 1:
            s = s[2][0]
        return s

    def after_call(self, st, ctx, n, name, recv, args):
        if name == "MultiLocker::get_lock":
            a = args[0]
            key = None
            for x in walk(a):
                if x[0] == "s":
                    key = x[1]
            if key is None:
                ks = {y[1] for o in self.an.origins_sym(a) for y in walk(o) if y[0] == "s"}
                key = ks.pop() if len(ks) == 1 else "?"
            return [st | {(ctx.sym(ctx.node), key)}]
        return None

    def on_bind(self, st, ctx, var, typ, s):
        if not st:
            return None
        h = self._h(s)
        if any(x[0] == h for x in st):
            if typ.endswith("&"):
                return None
            return [frozenset((("v", var) if x[0] == h else x[0], x[1]) for x in st)]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if not st or op != "=":
            return None
        h = self._h(rhs)
        if any(x[0] == lhs for x in st) or any(x[0] == h for x in st):
            s2 = {x for x in st if x[0] != lhs}
            return [frozenset((lhs if x[0] == h else x[0], x[1]) for x in s2)]
        return None

    def on_dtor(self, st, ctx, e, s):
        if not st:
            return None
        if "tmp" in e:
            t = ctx.eng.P.sym(ctx.fn, e["tmp"], ctx.env)
            r = frozenset(x for x in st if x[0] != self._h(t) or x[0][0] == "v")
        else:
            # the symbolic name of a once-initialised handle is its initialiser
            t = None
            j = ctx.fn.single_def(e["var"]) if "var" in e else None
            if j is not None and j >= 0:
                t = self._h(ctx.sym(j))
            r = frozenset(x for x in st if x[0] != s and not (t is not None and x[0] == t))
        return [r] if r != st else None

    def on_return(self, st, ctx, n, s):
        # returned handle: ownership moves to the caller under the call's name
        return None


def c05(an, R):
    P = an.P
    R.rule("exclusive-sections", "every path to a dedupe ioctl holds the 'dedupe' exclusion and every path to a backref lookup holds the 'logical_ino' exclusion, held through RAII handles, never two at once, and never while the throttle sleeps", 3)
    sites = an.sites({"btrfs_extent_same", "BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow", "BtrfsIoctlLogicalInoArgs::do_ioctl"})
    done = set()
    for f, i, n in sites:
        if f.short.startswith("BtrfsIoctlLogicalInoArgs::") or f.id in done:
            continue
        done.add(f.id)
        a, e, v = an.prove(f, lambda: HandleAut(an), 3)
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            for s in a.instances:
                R.ok("kernel operation in %s under its exclusion" % f.short, f)
    for f, i, n in an.sites({"bees_throttle", "MultiLocker::get_lock"}):
        if f.id in done:
            continue
        done.add(f.id)
        a, e, v = an.prove(f, lambda: HandleAut(an), 0)
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("throttle/exclusion use in %s" % f.short, f)
    R.rule("exclusion-enabled", "the exclusion is switched on before the first worker starts and never switched off", 1)
    for f, i, n in an.sites({"MultiLocker::enable_locking"}):
        v = {konst(o) for o in an.origins_sym(P.sym(f, n["a"][0]))}
        R.check(v == {1}, "enable_locking(true) in %s" % f.short, "%s:enable" % key_fn(an, f.short, f), an.where(f, i), "the exclusion between conflicting kernel operations may be switched off", f)
    for f, r, kind, i in an.field_writes.get("MultiLocker::m_do_locking", []):
        if f.id in an.reach and f.short not in ("MultiLocker::enable_locking",) and not f.d.get("ctor"):
            R.bad("%s:m_do_locking" % f.short, an.where(f, i), "the exclusion switch is written outside its setter", fn=f)
    init = [v for v in an.field_writes.get("MultiLocker::m_do_locking", []) if v[2] == "init"]
    R.ok("%d initialisers of the switch" % len(init))
    R.rule("exclusion-core", "a section is entered only after every other class was found idle under the exclusion's mutex, its count is raised under that mutex, and leaving lowers it and wakes waiters when it reaches zero", 4)
    _multilock_core(an, R)
    return ["kernel operations named here are the only ones known to conflict (dedupe vs. backref lookup)",
            "sleeping in the throttle never fails with EAGAIN (nanosleep's documented errors are EFAULT, EINTR, EINVAL)"]


class GetLockAut(NameAut):
    """on the increment of the class counter the last thing known about
    availability is a positive answer obtained under the same hold of the mutex"""
    names = ("*::is_lock_available", "std::condition_variable::wait", "std::unique_lock::unlock", "std::unique_lock::lock", "std::unique_lock::unique_lock", "*::set_locked")
    fields = ("MultiLocker::m_counters",)

    def __init__(self, an, mode):
        super().__init__()
        self.an = an
        self.mode = mode
        self.inc = 0
        self.locked = 0

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "c" and last(s[1]) == "is_lock_available":
                return [st | {"avail"} if p else st - {"avail"}]
            if s[0] == "c" and s[1].startswith("std::condition_variable") and False:
                pass
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if name.endswith("::unlock") and name.startswith("std::unique_lock"):
            return [st - {"avail"}]
        if name.startswith("std::condition_variable") and last(name) in ("wait", "wait_for", "wait_until"):
            # wait(lock, pred) returns with pred true
            if last(name) == "wait" and len(args) == 2 and args[1][0] == "lam":
                lf = ctx.eng.P.fns.get(args[1][1])
                r = ctx.eng.P.pure_return(lf) if lf else None
                if r is not None:
                    fs = ctx.eng.P.facts_of(ctx.eng.P.sym(lf, r, ctx.env), True)
                    if any(s[0] == "c" and last(s[1]) == "is_lock_available" and p for s, p in fs):
                        return [st | {"avail"}]
            return [st - {"avail"}]
        if last(name) == "set_locked" and args and konst(args[0]) != 0:
            self.locked += 1
            return [st | {"handle"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if has(lhs, lambda x: x[0] == "f" and last(x[2]) == "m_counters") or self.refs_counter(ctx, n):
            if op in ("++", "p++", "+="):
                self.inc += 1
                if "avail" not in st:
                    self.report(ctx, "enter-unavailable", "a section is entered although other classes may be active")
                if "counted" in st:
                    self.report(ctx, "double-count", "a section is counted twice")
                return [st | {"counted"}]
            if op in ("--", "p--", "-="):
                return [st - {"counted"}]
        return None

    def refs_counter(self, ctx, n):
        return False

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        if "counted" not in st:
            self.report(ctx, "not-counted", "a handle is handed out without counting the section")
        if "handle" not in st:
            self.report(ctx, "not-armed", "a handle is handed out that will not leave the section when destroyed")
        return None


class AvailAut(NameAut):
    names = ()
    fields = ("MultiLocker::m_counters",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.decided = 0

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            e = eq_sides(s)
            if e:
                if any(x[0] == "c" and last(x[1]) in ("end", "cend") for x in (e[0], e[1]) if x):
                    out -= {"other", "busy", "idle", "mine"}
                    if p:
                        out.add("end")
                    continue
                a, b = e
                sec = lambda x: has(x, lambda y: y[0] == "f" and last(y[2]) == "second")
                fst = lambda x: has(x, lambda y: y[0] == "f" and last(y[2]) == "first")
                if (sec(a) and konst(b) == 0) or (sec(b) and konst(a) == 0):
                    out.add("idle" if p else "busy")
                elif fst(a) or fst(b):
                    out.add("mine" if p else "other")
            elif s[0] == "o" and s[1] == "<" and konst(s[2]) == 0 and has(s[3], lambda y: y[0] == "f" and last(y[2]) == "second"):
                out.add("busy" if p else "idle")
        return [frozenset(out)] if out != st else None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        self.decided += 1
        k = konst(s)
        for t in st:
            if isinstance(t, tuple) and t[0] == "val" and ("v", t[1]) == s:
                k = t[2]
        if k is not None:
            self._verdict(st, ctx, k)
        else:
            for pol in (False, True):
                o = self.on_branch(st, ctx, self.an.P.facts_of(s, pol))
                st2 = o[0] if o else st
                if {"busy", "idle"} <= st2 or {"mine", "other"} <= st2:
                    continue
                self._verdict(st2, ctx, int(pol))
        return None

    def _verdict(self, st, ctx, k):
        if k == 0:
            if not ({"busy", "other"} <= st) or {"idle", "mine"} & st:
                self.report(ctx, "refuses-free", "a section is refused although no other class is active")
        elif k == 1:
            if "end" not in st:
                self.report(ctx, "partial-look", "a section is granted before every other class was looked at")

    def on_bind(self, st, ctx, var, typ, s):
        st = frozenset(t for t in st if not (isinstance(t, tuple) and t[0] == "val" and t[1] == var))
        return [st | {("val", var, konst(s))} if (typ or "").replace("const ", "") == "bool" and konst(s) is not None else st]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and op == "=":
            return self.on_bind(st, ctx, lhs[1], "bool", rhs)
        # the iterator advances: in this iteration a busy other class must have returned
        if {"busy", "other"} <= st and op in ("++", "p++"):
            self.report(ctx, "overlooks-busy", "an active other class does not prevent the section")
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if n.get("op") in ("++",) and {"busy", "other"} <= st:
            self.report(ctx, "overlooks-busy", "an active other class does not prevent the section")
        return None

    def relevant(self, fn, i, n):
        return super().relevant(fn, i, n)


def _multilock_core(an, R):
    from .engine import Engine
    P = an.P
    f = P.one("MultiLocker::get_lock_private")
    a = GetLockAut(an, "enter")
    e = Engine(P, a, throw=False)
    e.run(f, a.initial())
    for x in a.violations.values():
        R.bad("get_lock_private:" + x["key"], x["where"], x["msg"], x["path"], f)
    R.check(a.inc > 0, "entering raises the class count after a positive availability answer", "get_lock_private:no-count", an.where(f), "entering a section is never counted", f)
    f = P.one("MultiLocker::is_lock_available")
    s = None
    rets = [i for i in f.live_nodes() if f.nodes[i]["k"] == "ret"]
    algo = None
    if len(rets) == 1:
        s = P.sym(f, f.nodes[rets[0]]["s"])
        while s[0] == "not":
            s = s[1]
        if s[0] == "c" and last(s[1]) in ("all_of", "none_of", "any_of"):
            algo = s
    if algo is None:
        a = AvailAut(an)
        e = Engine(P, a, throw=False)
        e.run(f, a.initial())
        for x in a.violations.values():
            R.bad("is_lock_available:" + x["key"], x["where"], x["msg"], x["path"], f)
        R.check(a.decided > 0 and not a.violations, "availability looks at every class", "is_lock_available", an.where(f), "availability is not decided by looking at every class", f)
    else:
        R.ok("availability is a standard quantifier over the classes", f)
    # leaving
    f = P.one("MultiLocker::put_lock")
    a = PutAut(an)
    e = Engine(P, a, throw=True)
    e.run(f, a.initial())
    for x in a.violations.values():
        R.bad("put_lock:" + x["key"], x["where"], x["msg"], x["path"], f)
    R.check(a.dec > 0, "leaving lowers the count", "put_lock:no-decrement", an.where(f), "leaving a section never lowers its count", f)
    # the mutex is held at every access of the counters
    for fn in an.fns():
        for i in fn.live_nodes():
            n = fn.nodes[i]
            if n["k"] == "mem" and short(n["fd"]) == "MultiLocker::m_counters":
                h = an.L.held(fn, i)
                R.check(h is not None and any(mutex_class(m) == "MultiLocker::m_mutex" for m in h), "class counts accessed under the mutex in %s" % fn.short,
                        "%s:unlocked-count" % fn.short, an.where(fn, i), "the class counts are accessed without the exclusion's mutex", fn)
    # the handle's destructor leaves when it was armed
    for f in P.fns.values():
        if f.d.get("dtor") and f.cls.endswith("MultiLocker::LockHandle") and f.blocks:
            a = DtorLeaves(an)
            e = Engine(P, a, throw=False)
            e.run(f, a.initial())
            for x in a.violations.values():
                R.bad("LockHandle:" + x["key"], x["where"], x["msg"], x["path"], f)
            R.check(a.left > 0, "destroying an armed handle leaves the section", "LockHandle:never-leaves", an.where(f), "destroying a handle never leaves its section", f)


class PutAut(NameAut):
    names = ("std::condition_variable::notify_all", "std::condition_variable::notify_one")
    fields = ("MultiLocker::m_counters",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.dec = 0

    def initial(self):
        return frozenset()

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if op in ("--", "p--", "-="):
            self.dec += 1
            if "dec" in st:
                self.report(ctx, "double-leave", "leaving a section lowers its count twice")
            return [st | {"dec"}]
        return None

    def on_branch(self, st, ctx, facts):
        if "dec" not in st:
            return None
        out = set(st)
        for s, p in facts:
            e = eq_sides(s)
            if e and (konst(e[0]) == 0 or konst(e[1]) == 0):
                out.add("zero" if p else "nonzero")
            elif s[0] == "o" and s[1] == "<" and konst(s[2]) == 0:
                out.add("nonzero" if p else "zero")
        return [frozenset(out)]

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) == "notify_all":
            return [st | {"notified"}]
        if last(name) == "notify_one" and "dec" in st:
            self.report(ctx, "notify-one", "only one of possibly several waiters is woken when a class becomes idle")
            return [st | {"notified"}]
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if "dec" not in st:
            self.report(ctx, "not-left", "leaving a section can skip lowering its count")
        elif "nonzero" not in st and "notified" not in st:
            self.report(ctx, "no-wakeup", "a class can become idle without waking the waiters")
        return None


class DtorLeaves(NameAut):
    names = ("MultiLocker::put_lock",)
    fields = ("MultiLocker::LockHandle::m_locked", "m_locked")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.left = 0

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "f" and last(s[2]) == "m_locked":
                return [st | {"armed" if p else "unarmed"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "MultiLocker::put_lock":
            self.left += 1
            if "armed" not in st:
                self.report(ctx, "leaves-unarmed", "a handle that never entered lowers the class count")
            return [st | {"left"}]
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack:
            return None
        if "unarmed" not in st and "left" not in st:
            self.report(ctx, "stays", "destroying an armed handle may not leave the section")
        return None


# ------------------------------------------------------------------ C06
class BlackGuard(Guarded):
    """nothing is scanned or used as a dedupe partner unless its identity was
    found not blacklisted"""
    names = ("*::is_blacklisted", "BeesContext::scan_one_extent", "BeesResolver::chase_extent_ref", "BeesContext::scan_forward")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def guard(self, ctx, s, pol):
        if s[0] == "c" and last(s[1]) == "is_blacklisted" and not pol and len(s[3]) == 1:
            a = self.an.canon(s[3][0])
            out = []
            for x in walk(a):
                if x[0] == "c" and len(x) == 4 and last(x[1]) == "fid" and x[2] is not None:
                    out.append(("ok", self.an.canon(x[2])))
                if x[0] == "ctor" and last(x[1]) == "BeesFileId" and len(x[2]) == 2:
                    for y, want in zip(x[2], ("m_root", "m_inum")):
                        if y[0] == "f" and last(y[2]) == want:
                            out.append(("ok2", self.an.canon(y[1]), want))
                if x[0] == "f" and last(x[2]) == "m_fid":
                    out.append(("ok", self.an.canon(x[1])))
            if a[0] == "v":
                out.append(("ok", a))
            return out
        return None

    def site(self, ctx, n, name, recv, args):
        if name == "BeesContext::scan_one_extent" and args:
            r = self.an.canon(args[0])
            return [(lambda st: ("ok", r) in st or any(t[0] == "ok" and has(r, lambda x: x == t[1]) for t in st), "scan-unchecked",
                     "an extent is scanned without having established that its file is not one of bees' own")]
        if name == "BeesResolver::chase_extent_ref" and args:
            r = self.an.canon(args[0])
            return [(lambda st: ("ok2", r, "m_root") in st and ("ok2", r, "m_inum") in st or ("ok", r) in st, "ref-unchecked",
                     "a reference is used as a dedupe partner without having established that its file is not one of bees' own")]
        return None


class BlackPredicate(NameAut):
    names = ("std::set::find", "std::set::count", "std::set::contains")
    fields = ("BeesContext::m_blacklist",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.looked = 0

    def initial(self):
        return frozenset()

    def _member(self, s, p):
        """membership fact: True/False/None"""
        e = eq_sides(s)
        if e:
            for a, b in (e, e[::-1]):
                if a[0] == "c" and last(a[1]) in ("find", "lower_bound") and b[0] == "c" and last(b[1]) in ("end", "cend"):
                    return not p
                if a[0] == "c" and last(a[1]) == "count" and konst(b) == 0:
                    return not p
        if s[0] == "c" and last(s[1]) in ("count", "contains"):
            return p
        if s[0] == "o" and s[1] == "<" and konst(s[2]) == 0 and s[3][0] == "c" and last(s[3][1]) == "count":
            return p
        return None

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            e = eq_sides(s)
            if e:
                for a, b in (e, e[::-1]):
                    if konst(b) == 1 and (a[0] == "c" and last(a[1]) == "root" or a[0] == "f" and last(a[2]) == "m_root"):
                        out.add("root1" if p else "notroot1")
            m = self._member(s, p)
            if m is not None:
                self.looked += 1
                out.add("member" if m else "notmember")
        return [frozenset(out)] if out != st else None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        k = konst(s)
        if k == 0 and not ("notmember" in st and "notroot1" in st):
            self.report(ctx, "lets-through", "the test answers 'not own' without looking the file up in the set of own files and ruling out the root tree")
        if k == 1 and not ({"member", "root1"} & st):
            self.report(ctx, "blocks", "the test answers 'own' for a file that is in no such set")
        if k is None:
            fs = []
            P = self.an.P
            fs = P.facts_of(s, False)
            o2 = self.on_branch(st, ctx, fs)
            st2 = o2[0] if o2 else st
            if not ("notmember" in st2 and "notroot1" in st2):
                self.report(ctx, "lets-through", "the test may answer 'not own' without looking the file up in the set of own files and ruling out the root tree")
        return None


class TmpCtor(Events):
    """a temporary file is registered before anything can be written to it"""
    names = ("openat", "BeesContext::blacklist_insert", "BeesRoots::insert_tmpfile", "ftruncate", "pwrite", "BeesTempFile::resize")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def label(self, ctx, n, name, recv, args):
        return last(name)

    def delta(self, st, ev, ctx):
        if ev == "openat":
            return st | {"open"}
        if ev in ("blacklist_insert", "insert_tmpfile"):
            return st | {ev}
        if ev in ("ftruncate", "pwrite"):
            if "blacklist_insert" not in st or "insert_tmpfile" not in st:
                self.report(ctx, "unregistered", "a temporary file gets content before it is registered as bees' own")
        return st

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if not {"blacklist_insert", "insert_tmpfile"} <= st:
            self.report(ctx, "unregistered-exit", "a temporary file can be created without being registered as bees' own")
        return None


def c06(an, R):
    P = an.P
    from .engine import Engine
    R.rule("scan-guard", "an extent is scanned, and a reference is used as dedupe partner, only on paths where its file was found not to be one of bees' own", 2)
    for nm in ("BeesContext::scan_one_extent", "BeesResolver::chase_extent_ref"):
        for f, i, n in an.sites({nm}):
            g = f
            a, e, v = an.prove(g, lambda: BlackGuard(an), 4)
            R.states += e.nstates
            for x in v:
                R.bad("%s:%s" % (key_fn(an, x["fn"], g), x["key"]), x["where"], x["msg"], x["path"], f)
            if not v:
                R.ok("%s in %s guarded" % (last(nm), key_fn(an, f.short, f)), f)
    R.rule("own-test", "the test answers 'not own' only after the file was looked up in the set of own files, and for nothing in the root tree", 1)
    f = P.one("BeesContext::is_blacklisted")
    a = BlackPredicate(an)
    e = Engine(P, a, throw=False)
    e.run(f, a.initial())
    for x in a.violations.values():
        R.bad("is_blacklisted:" + x["key"], x["where"], x["msg"], x["path"], f)
    R.check(a.looked > 0, "the set of own files is consulted", "is_blacklisted:no-lookup", an.where(f), "the set of own files is never consulted", f)
    R.rule("registered-first", "a temporary file is registered as own (and for identity lookup) before it gets any content", 1)
    for f in P.ctors.get("BeesTempFile", []):
        if f.d.get("impl"):
            continue
        a = TmpCtor(an)
        e = Engine(P, a, throw=True, follow_dtors=False)
        e.run(f, a.initial())
        R.states += e.nstates
        for x in a.violations.values():
            R.bad("BeesTempFile:" + x["key"], x["where"], x["msg"], x["path"], f)
        R.check(len(a.instances) >= 3, "temporary file construction: %d events" % len(a.instances), "BeesTempFile:events", an.where(f), "temporary file construction does not register the file", f)
    def ends(f, depth=0):
        # runs only while a temporary file is destroyed
        if f.d.get("dtor"):
            return f.cls == "BeesTempFile"
        cs = an.callers_of(f)
        return depth < 4 and bool(cs) and all(ends(an.owner_of(c), depth + 1) for c in cs)
    R.rule("identity-registered", "what is registered is the kernel identity of the very descriptor", 2)
    for f, i, n in an.sites({"BeesContext::blacklist_insert", "BeesContext::blacklist_erase"}):
        s = P.sym(f, n["a"][0])
        ok = s[0] == "ctor" and last(s[1]) == "BeesFileId" and len(s[2]) == 1
        R.check(ok, "%s(%s) in %s" % (last(short(n["n"])), show(s, 60), f.short), "%s:registered-identity" % f.short, an.where(f, i), "the registered identity is not that of a descriptor bees holds", f)
        if last(short(n["n"])) == "blacklist_erase":
            R.check(ends(an.owner_of(f)), "own files are unregistered only when the temporary file ends", "%s:erase" % f.short, an.where(f, i), "a file is removed from the set of own files while it may still be in use", f)
    for f, r, kind, i in an.field_writes.get("BeesContext::m_blacklist", []):
        if f.id in an.reach and f.short not in ("BeesContext::blacklist_insert", "BeesContext::blacklist_erase") and kind != "init":
            R.bad("%s:m_blacklist" % f.short, an.where(f, i), "the set of own files is changed outside its accessors", fn=f)
    return []

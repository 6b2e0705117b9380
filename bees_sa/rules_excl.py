"""C24 one scan at a time: extents and inodes are worked on by one task."""
from .common import *
from .rules_dedupe import key_fn
from .rules_crawl import lam_nodes

EX = "ExclusionLock"


def full(an, s, depth=0):
    """s with once-initialised locals replaced by what they were initialised with"""
    P = an.P

    def go(t, d):
        if not isinstance(t, tuple) or d > 12:
            return t
        if len(t) == 2 and t[0] == "v":
            o = an.var_owner.get(t[1])
            if o and o[1] in ("local", "decl") and not (isinstance(o[2], dict) and o[2].get("st")):
                j = o[0].single_def(t[1])
                if j is not None and j >= 0 and o[0].nd(j) and o[0].nd(j)["k"] != "zero":
                    r = P.sym(o[0], j, None, 0, False)
                    if r != t and not (r[0] == "ctor" and not r[2]):
                        return go(r, d + 1)
            return t
        return tuple(go(x, d + 1) if isinstance(x, tuple) else x for x in t)
    return go(s, 0)


def peel(s):
    while s and s[0] == "ctor" and len(s[2]) == 1:
        s = s[2][0]
    return s


class Excl(Guarded):
    """tokens (lock variable, mutex variable, kind, key, taken)"""
    expand = False
    names = ("BeesContext::scan_one_extent", "BeesContext::scan_forward", "Exclusion::try_lock", "ExclusionLock::release", "BeesContext::get_inode_mutex")

    def __init__(self, an, what):
        super().__init__()
        self.an, self.what = an, what

    def never_enter(self, fn):
        return fn.short in ("BeesContext::scan_one_extent", "Exclusion::try_lock", "BeesContext::get_inode_mutex") or (self.what == "inode" and fn.short == "BeesContext::scan_forward") or fn.short.startswith("std::")

    # ---- keys
    def key(self, s):
        """(kind, key) of the lock object s"""
        s = peel(full(self.an, s))
        for _ in range(4):
            # functions that look the lock object up
            if s[0] != "c" or len(s) != 4 or last(s[1]) == "operator()":
                break
            c = [f for f in self.an.P.by_short.get(s[1], []) if f.blocks and len(f.params) == len(s[3])]
            j = self.an.P.pure_return(c[0]) if len(c) == 1 else None
            if j is None or j < 0:
                break
            env = {"this": s[2]} if s[2] is not None else {}
            env.update({p["var"]: a for p, a in zip(c[0].params, s[3])})
            s = peel(full(self.an, self.an.P.sym(c[0], j, env, 0, False)))
        if s[0] == "c" and last(s[1]) == "operator()" and s[2] and s[2][0] == "f" and len(s[3]) == 1:
            return (last(s[2][2]), self.norm(s[3][0]))
        if s[0] == "c" and last(s[1]) == "get_inode_mutex" and len(s[3]) == 1:
            return ("m_inode_locks", self.norm(s[3][0]))
        return None

    def norm(self, s):
        """inode numbers: the one a tree fetcher is set to, and that of every
        item it finds, are the same"""
        s = full(self.an, s)
        P = self.an.P
        if s[0] == "c" and last(s[1]) == "objectid" and not s[3] and s[2]:
            o = s[2]
            if o[0] == "c" and len(o) == 4 and o[2] and "Fetcher" in o[1]:
                return ("ino", o[2])
            return ("ino", o)
        return s

    def same_ino(self, ctx, a, b):
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == "ino":
                # the fetcher was set to y
                f = self.an.owner_of(ctx.fn)
                for g in [f] + list(self.an.P.lambdas_of(f.id)):
                    for i, n in g.calls():
                        if last(short(n.get("n", ""))) == "objectid" and len(n.get("a", ())) == 1 and "o" in n:
                            if full(self.an, self.an.P.sym(g, n["o"], None, 0, False)) == x[1] and self.norm(self.an.P.sym(g, n["a"][0], None, 0, False)) == y:
                                return True
        return False

    # ---- locks
    def take(self, st, var, s):
        st = frozenset(t for t in st if t[0] != var)
        s0 = peel(s)
        if s0[0] == "v" and any(t[0] == s0[1] for t in st):
            return st | {(var,) + t[1:] for t in st if t[0] == s0[1]}
        if s0[0] != "c" or last(s0[1]) != "try_lock":
            s0 = peel(full(self.an, s))
        if s0[0] == "c" and last(s0[1]) == "try_lock" and s0[2]:
            k = self.key(s0[2])
            m = s0[2]
            if k:
                return st | {(var, m[1] if m[0] == "v" else m if m[0] == "f" else None, k[0], k[1], False)}
        return st

    def on_bind(self, st, ctx, var, typ, s):
        if EX in (typ or ""):
            return [self.take(st, var, s)]
        if (typ or "").replace("const ", "").strip() == "bool" and any(t[0] != "alias" and x == ("v", t[0]) for t in st for x in subterms(s)):
            st = frozenset(t for t in st if not (t[0] == "alias" and t[1] == var))
            return [st | {("alias", var, s, None, None)}]
        return self.changed(st, ("v", var))

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and (any(t[0] == lhs[1] for t in st) or (rhs and peel(rhs)[0] == "c" and last(peel(rhs)[1]) == "try_lock")):
            return [self.take(st, lhs[1], rhs)]
        return self.changed(st, lhs)

    def changed(self, st, lhs):
        """the key or the mutex of a held lock names something else now"""
        r = frozenset(t for t in st if not (lhs[0] == "v" and t[1] == lhs[1]) and not (t[0] != "alias" and any(x == lhs for x in subterms(t[3]))))
        return [r] if r != st else None

    def on_branch(self, st, ctx, facts):
        out = st
        todo = list(facts)
        for s, p in todo:
            s = peel(s)
            todo += [f for t in st if t[0] == "alias" and s == ("v", t[1]) for f in self.an.P.facts_of(t[2], p)]
            for t in list(out):
                if t[0] != "alias" and s == ("v", t[0]):
                    out = (out - {t}) | ({t[:4] + (True,)} if p else frozenset())
        return [out] if out != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "ExclusionLock::release" and recv is not None and recv[0] == "v":
            st = frozenset(t for t in st if t[0] != recv[1])
            return [st]
        if last(name) in ("reset", "swap") and recv is not None and recv[0] == "v":
            return self.changed(st, recv)
        if self.what == "extent" and name == "BeesContext::scan_one_extent" and len(args) == 2:
            self.instances.add((ctx.fn.id, ctx.node))
            e = full(self.an, args[1])
            self.need(st, ctx, "m_extent_locks", "extent", lambda k: k[0] == "c" and last(k[1]) == "bytenr" and k[2] == e)
        if self.what == "inode" and name == "BeesContext::scan_forward" and args:
            self.instances.add((ctx.fn.id, ctx.node))
            inos = self.inode(ctx, args[0])
            self.need(st, ctx, "m_inode_locks", "inode", lambda k: any(self.same_ino(ctx, k, i) for i in inos))
        return None

    def inode(self, ctx, s):
        out = []
        s = peel(full(self.an, s))
        cand = [s]
        if s[0] == "v":
            # assigned after its definition
            o = self.an.var_owner.get(s[1])
            if o:
                cand += [peel(full(self.an, x)) for x in self.an.origins_sym(s)]
        for c in cand:
            if c[0] == "ctor" and last(c[1]) == "BeesFileRange" and c[2]:
                f = peel(full(self.an, c[2][0]))
                if f[0] == "ctor" and last(f[1]) == "BeesFileId" and len(f[2]) == 2:
                    out.append(f[2][1])
        return out

    def need(self, st, ctx, kind, what, right):
        mine = [t for t in st if t[2] == kind]
        if any(t[4] and t[1] is not None and right(t[3]) for t in mine):
            return
        if not mine:
            self.report(ctx, "%s-unlocked" % what, "the %s is scanned without its lock" % what)
        elif not any(right(t[3]) for t in mine):
            self.report(ctx, "%s-other" % what, "the %s is scanned under the lock of another one" % what)
        elif not any(t[1] is not None for t in mine):
            self.report(ctx, "%s-temporary" % what, "the lock object of the %s is gone while it is scanned: the next task makes another one" % what)
        else:
            self.report(ctx, "%s-untested" % what, "the %s is scanned although its lock may not have been obtained" % what)

    def on_dtor(self, st, ctx, e, s):
        if "var" in e:
            r = frozenset(t for t in st if t[0] != e["var"] and t[1] != e["var"])
            return [r] if r != st else None
        return None


class Owner(NameAut):
    """Exclusion::try_lock.  tokens free, busy, ("own", sym)"""
    expand = False
    names = ("Task::insert", "std::make_shared", "*::lock", "*::expired")
    fields = ("Exclusion::m_owner",)

    def initial(self):
        return frozenset()

    def is_owner(self, st, s):
        if s[0] == "v" and ("cur", s[1]) in st:
            return True
        return s[0] == "c" and last(s[1]) == "lock" and s[2] and s[2][0] == "f" and last(s[2][2]) == "m_owner"

    def on_bind(self, st, ctx, var, typ, s):
        if self.is_owner(st, s):
            return [st | {("cur", var)}]
        if EX in (typ or ""):
            return [self.keep(st, var, s)]
        return None

    def keep(self, st, var, s):
        return frozenset(t for t in st if not (isinstance(t, tuple) and t[0] == "val" and t[1] == var)) | {("val", var, s)}

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            if self.is_owner(st, s):
                out.add("busy" if p else "free")
            elif s[0] == "c" and last(s[1]) == "expired" and s[2] and s[2][0] == "f" and last(s[2][2]) == "m_owner":
                out.add("free" if p else "busy")
            elif s[0] == "o" and s[1] == "==" and any(self.is_owner(st, x) for x in s[2:4]) and ("k", "0") in s[2:4]:
                out.add("free" if p else "busy")
            elif s[0] == "v" and "task" in s[1].lower() and not p:
                out.add("notask")
        return [frozenset(out)] if out != st else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and last(lhs[2]) == "m_owner":
            if "free" not in st or "busy" in st:
                self.report(ctx, "steals", "the lock is given to a new owner although it is held")
            return [st | {("own", rhs)}]
        if lhs[0] == "v" and any(isinstance(t, tuple) and t[0] == "val" and t[1] == lhs[1] for t in st):
            return [self.keep(st, lhs[1], rhs)]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if name in ("Task::insert", "Task::append") and recv is not None and self.is_owner(st, recv):
            return [st | {"queued"}]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        for t in st:
            if isinstance(t, tuple) and t[0] == "val" and peel(s) == ("v", t[1]):
                s = t[2]
        empty = s[0] == "ctor" and not s[2] or s == ("il",) or s == ("k", "0")
        if empty:
            if "free" in st:
                self.report(ctx, "refuses", "the lock is refused although nobody holds it")
            elif "queued" not in st and "notask" not in st:
                self.report(ctx, "forgets", "a task that does not get the lock is not put behind the one that holds it")
        else:
            v = peel(s)
            if "busy" in st or "free" not in st:
                self.report(ctx, "grants-twice", "the lock is granted although it may be held")
            elif not any(t[0] == "own" and (t[1] == v or peel(t[1]) == v) for t in st if isinstance(t, tuple)):
                self.report(ctx, "unowned", "the lock that is handed out is not the one recorded as its owner")
        return None


class Named(NameAut):
    """NamedPtr::insert_item: one live object per name.
    tokens: "key" (key lock held, var), ("res", var, after key?), "miss" (not in
    the map, seen with the key lock), ("val", var)"""
    expand = False
    names = ("NamedPtr::lookup_item", "LockSet::make_lock", "*::lock", "*::expired", "*::find", "std::function::operator()", "*::operator[]", "*::insert", "*::emplace", "*::insert_or_assign")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short.startswith("std::") or fn.cls.startswith("LockSet") or fn.short == "NamedPtr::lookup_item"

    def bind(self, st, ctx, var, s):
        st = frozenset(t for t in st if not (isinstance(t, tuple) and t[0] in ("res", "slot") and t[1] == var))
        s = peel(s)
        if s[0] == "c" and (last(s[1]) == "make_lock" or "LockHandle" in s[1]):
            return st | {("key", var)}
        if s[0] == "ctor" and "LockHandle" in s[1]:
            return st | {("key", var)}
        if s[0] == "c" and last(s[1]) in ("lookup_item", "lock") and "LockSet" not in s[1] and "unique_lock" not in s[1]:
            return st | {("res", var, any(isinstance(t, tuple) and t[0] == "key" for t in st))}
        if s[0] == "i" and s[1][0] == "f" and last(s[1][2]) == "m_map":
            return st | {("slot", var)}
        return st

    def on_bind(self, st, ctx, var, typ, s):
        if s[0] == "ctor" and "LockHandle" in (typ or ""):
            return [st | {("key", var)}]
        return [self.bind(st, ctx, var, s)]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "i" and lhs[1][0] == "f" and last(lhs[1][2]) == "m_map" or lhs[0] == "v" and ("slot", lhs[1]) in st:
            return self.write(st, ctx, rhs)
        if lhs[0] == "v":
            return [self.bind(st, ctx, lhs[1], rhs)]
        return None

    def write(self, st, ctx, v):
        self.instances.add((ctx.fn.id, ctx.node))
        if not any(isinstance(t, tuple) and t[0] == "key" for t in st):
            self.report(ctx, "no-key-lock", "an object is entered under a name without the lock of that name: two tasks can make two objects for it")
        elif "miss" not in st:
            self.report(ctx, "not-looked-up", "an object is entered under a name without looking, under the lock of that name, whether it has one")
        h = self.an.L.held(ctx.fn, ctx.node)
        if not any("MapRep::m_mutex" in repr(x) for x in h):
            self.report(ctx, "no-map-lock", "the map of names is changed without its mutex")
        return [st | {("val", peel(v))}]

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            s = peel(s)
            for t in st:
                if isinstance(t, tuple) and t[0] == "res" and s == ("v", t[1]):
                    if p:
                        out.add(("hit", t[1]))
                    elif t[2]:
                        out.add("miss")
        return [frozenset(out)] if out != st else None

    def on_dtor(self, st, ctx, e, s):
        if "var" in e and ("key", e["var"]) in st:
            return [st - {("key", e["var"]), "miss"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) == "unlock" and recv is not None and recv[0] == "v" and ("key", recv[1]) in st:
            return [st - {("key", recv[1]), "miss"}]
        if last(name) in ("insert", "emplace", "insert_or_assign") and recv is not None and recv[0] == "f" and last(recv[2]) == "m_map":
            return self.write(st, ctx, args[-1] if args else ("none",))
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        if s == ("k", "0") or s[0] == "ctor" and not s[2]:
            return None
        v = peel(s)
        if v[0] == "v" and any(isinstance(t, tuple) and t[0] == "res" and t[1] == v[1] for t in st):
            return None
        if v[0] == "c" and last(v[1]) == "lookup_item":
            return None
        if v[0] == "ctor" and len(v[2]) == 2:
            own = peel(v[2][0])
            if any(isinstance(t, tuple) and t[0] == "val" and (t[1] == own or full(self.an, t[1]) == full(self.an, own)) for t in st):
                return None
            if own[0] == "v" and any(isinstance(t, tuple) and t[0] == "res" and t[1] == own[1] for t in st):
                return None
        self.report(ctx, "unshared", "the object handed out does not keep its entry alive: while it is in use, the same name can get another object")
        return None


class Erase(NameAut):
    """~Value erases the entry of its name only if that is dead"""
    expand = False
    names = ("*::expired", "*::erase", "*::lock")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "c" and last(s[1]) == "expired" and p:
                return [st | {"dead"}]
            if s[0] == "c" and last(s[1]) == "lock" and "weak" in s[1] and not p:
                return [st | {"dead"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) in ("erase", "clear") and recv is not None and recv[0] == "f" and last(recv[2]) == "m_map":
            self.instances.add((ctx.fn.id, ctx.node))
            if "dead" not in st:
                self.report(ctx, "erases-live", "the entry of a name is removed without knowing that its object is gone: it may be the new object of another task")
            h = self.an.L.held(ctx.fn, ctx.node)
            if not any("MapRep::m_mutex" in repr(x) for x in h):
                self.report(ctx, "no-map-lock", "the map of names is changed without its mutex")
        return None


class KeyLock(NameAut):
    """LockSet: a name is entered only while it is not in"""
    expand = False
    names = ("LockSet::locked", "*::count", "*::find", "*::insert", "*::emplace", "*::wait")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short.startswith("std::")

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            t = self.an.P.expand_pred(s)
            neg = False
            while t[0] == "not":
                t, neg = t[1], not neg
            q = p != neg
            if t[0] == "c" and last(t[1]) in ("count", "contains", "locked") and not q:
                out.add("out")
            e = [x for x in t[2:4] if x and x[0] == "c" and last(x[1]) in ("find", "count")] if t[0] == "o" and t[1] == "==" else []
            if e and last(e[0][1]) == "count" and ("k", "0") in t[2:4] and q:
                out.add("out")
            if e and last(e[0][1]) == "find" and q:
                out.add("out")
        return [frozenset(out)] if out != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) in ("insert", "emplace", "operator[]", "insert_or_assign") and recv is not None and recv[0] == "f" and last(recv[2]) == "m_set":
            self.instances.add((ctx.fn.id, ctx.node))
            if "out" not in st:
                self.report(ctx, "taken-name", "a name is locked without it being known to be free")
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if last(name) in ("wait", "wait_for", "wait_until") and "condition_variable" in name and len(args) < 2:
            return [st - {"out"}]
        return None


def c24(an, R):
    P = an.P

    def run(f, mk, lv, what, throw=True):
        a, e, v = an.prove(f, mk, lv, throw=throw)
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            for s in a.instances:
                R.ok("%s in %s" % (what, f.short), f)
        return a

    R.rule("extent", "every path to the scan of an extent holds the non-empty lock made for that extent's own address, and the lock object stays alive", 1)
    done = set()
    for f, i, n in an.sites({"BeesContext::scan_one_extent"}):
        if f.id not in done and f.id in an.reach:
            done.add(f.id)
            run(f, lambda: Excl(an, "extent"), 3, "extent scanned under its lock", False)
    R.rule("inode", "every path to the scan of a file range holds the non-empty lock made for the inode number of that range", 2)
    done = set()
    for f, i, n in an.sites({"BeesContext::scan_forward"}):
        if f.id not in done and f.id in an.reach:
            done.add(f.id)
            run(f, lambda: Excl(an, "inode"), 3, "range scanned under its inode's lock", False)
    R.rule("lock", "the lock is granted only when its owner is gone, recorded as owned by what is handed out, and a task that does not get it is put behind the owner", 2)
    for f in P.fn("Exclusion::try_lock"):
        run(f, lambda: Owner(), 0, "lock granted or task queued", False)
    R.rule("requeue", "the task that tries a lock is the one that is running", 2)
    for f, i, n in an.sites({"Exclusion::try_lock"}):
        s = full(an, P.sym(f, n["a"][0], None, 0, False)) if n.get("a") else ("none",)
        ok = s[0] == "c" and last(s[1]) == "current_task"
        if not ok:
            ok = all(x[0] == "c" and last(x[1]) == "current_task" for x in an.origins_sym(s)) and bool(an.origins_sym(s))
        R.check(ok, "the running task waits for the lock", "%s:requeue" % an.owner_of(f).short, an.where(f, i), "a lock is tried for a task other than the running one: the scan is not repeated when the lock is free", f)
    R.rule("object", "a name has one lock object: an object is entered in the map only under the name's own lock after looking for a live one, what is handed out keeps the entry alive, and only dead entries are removed", 6)
    for f in P.fn("NamedPtr::insert_item") + P.fn("NamedPtr::lookup_item", required=False):
        run(f, lambda: Named(an), 0, "one object per name", False)
    for f in P.fn("NamedPtr::Value::~Value", required=False):
        run(f, lambda: Erase(an), 0, "dead entry removed", False)
    R.rule("fresh", "a new name gets a lock object of its own", 2)
    for f, i, n in an.sites({"NamedPtr::func"}):
        o = P.sym(f, n["o"]) if "o" in n else ("none",)
        if o[0] != "f" or last(o[2]) not in ("m_extent_locks", "m_inode_locks"):
            continue
        ls = [t[1] for t in subterms(full(an, P.sym(f, n["a"][0], None, 0, False))) if t and t[0] == "lam"]
        ok = bool(ls)
        for l in ls:
            g = P.fns.get(l)
            for k in (g.live_nodes() if g else ()):
                if g.nodes[k]["k"] == "ret":
                    s = peel(full(an, P.sym(g, g.nodes[k]["s"], None, 0, False)))
                    if not (s[0] == "c" and last(s[1]) in ("make_shared", "new")):
                        ok = False
        R.check(ok, "%s makes a new lock object per name" % last(o[2]), "%s:shared" % last(o[2]), an.where(f, i), "%s: names do not get lock objects of their own" % last(o[2]), f)
    R.rule("name-lock", "a name is locked only while it is not, and unlocked when its handle goes", 4)
    for f in P.fn("LockSet::lock", required=False) + P.fn("LockSet::try_lock", required=False):
        run(f, lambda: KeyLock(an), 0, "name free when locked", False)

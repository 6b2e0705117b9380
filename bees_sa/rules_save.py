"""C13 the saved scan state is complete and restored exactly, C14 no transaction
is left out between scan cycles."""
from .common import *
from .linear import lin
from .rules_dedupe import key_fn
from .rules_scan import run, report_all
from .rules_crawl import peel1, reachers, lam_nodes, HOLD, SET, END, BEGIN, vtype
from .locks import mutex_class

BCS = "BeesCrawlState::"
NOISE = ("BeesNote", "BeesTracer", "BeesTooLong", "Chatter", "ChatterBox", "ChatterTraits", "Task", "TaskState", "TaskMaster", "TaskMasterState",
         "BtrfsTreeFetcher", "BtrfsIoctlSearchKey", "BeesStringFile", "Timer", "RateEstimator", "RateLimiter", "Table")
CLEAN = "BeesRoots::m_crawl_clean"
DIRTY = "BeesRoots::m_crawl_dirty"
MAP = "BeesRoots::m_root_crawl_map"
MARK = "BeesRoots::crawl_state_set_dirty"


def noise(fn):
    return fn.short.split("::")[0] in NOISE or "operator<<" in fn.short


def base_stream(s):
    while s and s[0] == "c" and last(s[1]) == "operator<<":
        s = s[2] if s[2] is not None else (s[3][0] if s[3] else None)
    return s


def is_field(s, name):
    return bool(s) and s[0] == "f" and s[2] == name


def is_map(an, s):
    if is_field(s, MAP):
        return True
    return s is not None and s[0] == "v" and any(is_field(x, MAP) for x in an.roots(s))


class Save(NameAut):
    """state_save: what is written, and when the state counts as clean.
    tokens: ("row", fields, text) being written; "streamed"/("snap",v)/... of the
    critical section; "written", "same", "nothing", ("entry",) """
    names = ("*::operator<<", "*::str", "BeesStringFile::write", BEGIN, "*::begin", "*::cbegin", "*::unlock", "*::lock", "BeesRoots::state_to_stream")
    fields = (CLEAN, DIRTY)

    def __init__(self, an, allf):
        super().__init__()
        self.an = an
        self.allf = allf
        self.table = {}         # key -> field
        self.other = set()
        self.nrow = self.nwrite = self.nclean = 0
        self.where = None

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("BeesCrawl", "ProgressTracker")

    def ignore_exc(self, ctx, n, name):
        return name.startswith("std::")

    def end_row(self, st, ctx):
        for t in st:
            if isinstance(t, tuple) and t[0] == "row":
                zero = ("zero", t[3]) in st
                miss = sorted(self.allf - t[1])
                if miss and not (zero and not t[1]):
                    self.report(ctx, "incomplete:" + ",".join(last(x) for x in miss), "a crawler's record is saved without its %s" % ", ".join(last(x) for x in miss))
                elif t[1] and "\n" not in t[2]:
                    self.report(ctx, "unterminated", "a crawler's record is not ended before the next one")
                st = st - {t}
        if "entry" in st:
            self.report(ctx, "omitted", "a crawler can be left out of the saved state")
        return frozenset(t for t in st if t != "entry" and not (isinstance(t, tuple) and t[0] in ("zero",)))

    def row(self, st):
        for t in st:
            if isinstance(t, tuple) and t[0] == "row":
                return t
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) == "unlock" and recv is not None and "lock" in name:
            return [self.unlock(st)]
        if name == "BeesStringFile::write":
            self.nwrite += 1
            self.instances.add((ctx.fn.id, ctx.node))
            st = self.end_row(st, ctx)
            ok = args and has(args[0], lambda x: x[0] == "c" and last(x[1]) == "str" and any(isinstance(t, tuple) and t[0] == "to" and t[1] == x[2] for t in st)) \
                or not any(isinstance(t, tuple) and t[0] == "to" for t in st) and args and has(args[0], lambda x: x[0] == "c" and last(x[1]) == "str")
            if not ok:
                self.report(ctx, "content", "something other than the collected state is written to the state file")
            return [st - {"written"}]
        return None

    def unlock(self, st):
        out = set()
        snap = [t for t in st if isinstance(t, tuple) and t[0] == "snap"]
        for t in st:
            if isinstance(t, tuple) and t[0] == "snap":
                out.add(("good" if "streamed" in st else "badsnap", t[1]))
            elif t == "streamed":
                pass
            else:
                out.add(t)
        return frozenset(out)

    def on_dtor(self, st, ctx, e, s):
        if strip_t(e.get("t", "")) in ("std::unique_lock", "std::lock_guard", "std::scoped_lock"):
            return [self.unlock(st)]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l in ("begin", "cbegin") and is_field(recv, MAP):
            return [st | {"streamed"}]
        if name == "BeesStringFile::write":
            return [st | {"written"}]
        if name == BEGIN:
            st = self.end_row(st - {"entry"}, ctx)
            self.nrow += 1
            self.where = (ctx.fn, ctx.node)
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {("row", frozenset(), "", ctx.sym(ctx.node))}]
        if n.get("op") == "<<" or l == "operator<<":
            b = base_stream(recv if recv is not None else args[0] if args else None)
            v = args[-1] if args else None
            r = self.row(st)
            if r is None or v is None or b is None or ctx.fn.is_noise(ctx.node):
                return None
            if v[0] == "fn" and last(v[1]) in ("hex", "oct"):
                self.report(ctx, "base", "numbers of the saved state are written in a base that is not read back")
                return None
            out = st - {r}
            if v[0] == "s":
                return [out | {("row", r[1], r[2] + v[1], r[3]), ("to", b)}]
            if v[0] == "k" and konst(v) in (10, 32):
                return [out | {("row", r[1], r[2] + chr(konst(v)), r[3]), ("to", b)}]
            if not self.state_value(v):
                return None
            txt = r[2]
            key = txt.split()[-1] if txt.split() else ""
            if not key or not txt[-1:].isspace() or (r[1] and not txt[:1].isspace()):
                self.report(ctx, "separator", "a value of the saved state is not separated from its key or its neighbours")
            flds = r[1]
            x = peel1(v)
            if x[0] == "f" and x[2].startswith(BCS):
                self.table.setdefault(key, set()).add(x[2])
                a = ctx.fn.nodes[n["a"][-1]] if n.get("a") else {}
                flds = flds | {x[2]}
            else:
                self.other.add(key)
            return [out | {("row", flds, "", r[3]), ("to", b)}]
        return None

    def state_value(self, v):
        return has(v, lambda x: x[0] == "f" and x[2].startswith(BCS))

    def on_branch(self, st, ctx, facts):
        add = set()
        for s, p in facts:
            e = eq_sides(s)
            if e and p and {x[2] for x in e if x[0] == "f"} == {CLEAN, DIRTY}:
                add.add("same")
            if s[0] == "c" and last(s[1]) == "empty" and p and has(s, lambda x: x[0] == "c" and last(x[1]) == "str"):
                add.add("nothing")
            if s[0] == "c" and last(s[1]) == "empty" and p and is_field(s[2], MAP):
                add.add("nothing")
            z = None
            if is_field(s, BCS + "m_max_transid") and not p:
                z = s[1]
            if e and p and any(is_field(x, BCS + "m_max_transid") for x in e) and any(konst(x) == 0 for x in e):
                z = [x for x in e if x[0] == "f"][0][1]
            if s[0] == "o" and s[1] == "<" and konst(s[2]) == 0 and is_field(s[3], BCS + "m_max_transid") and not p:
                z = s[3][1]
            if z is not None:
                r = self.row(st)
                if r is not None:
                    add.add(("zero", r[3]))
        return [st | add] if add else None

    def on_bind(self, st, ctx, var, typ, s):
        t = typ.replace("const ", "")
        if s is not None and s[0] == "f" and s[2] == DIRTY:
            return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] in ("snap", "good", "badsnap") and x[1] == var)) | {("snap", var)}]
        if t.rstrip(" &").startswith("std::pair<") and "BeesCrawl>" in t:
            return [self.end_row(st, ctx) | {"entry"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and is_field(rhs, DIRTY):
            return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] in ("snap", "good", "badsnap") and x[1] == lhs[1])) | {("snap", lhs[1])}]
        if is_field(lhs, CLEAN):
            self.nclean += 1
            self.instances.add((ctx.fn.id, ctx.node))
            st = self.end_row(st, ctx)
            raw = ctx.fn.nodes[n["R"]] if "R" in n else {}
            var = None
            x = raw
            while x and x.get("k") == "cast":
                x = ctx.fn.nodes[x["s"]]
            if x and x.get("k") == "ref":
                var = x.get("var")
            if op != "=" or not (rhs[0] == "v" or is_field(rhs, DIRTY)):
                self.report(ctx, "clean-value", "the state is marked saved with something other than a snapshot of the change counter")
                return None
            v = rhs[1] if rhs[0] == "v" else var
            if v is not None and (("good", v) in st or ("snap", v) in st and "streamed" in st):
                pass
            elif v is None and "streamed" in st:
                pass
            else:
                self.report(ctx, "clean-snapshot", "the change counter recorded as saved was not read in the critical section that collected the state")
            if "written" not in st and "nothing" not in st:
                self.report(ctx, "clean-early", "the state is marked saved before it was written")
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        st = self.end_row(st, ctx)
        if not ({"written", "same", "nothing"} & set(x for x in st if isinstance(x, str))):
            self.report(ctx, "unsaved", "changed state can be left unsaved although nothing failed")
        return None


class Load(NameAut):
    """state_load: every field from the key it was saved under, every record inserted"""
    names = ("BeesRoots::insert_root", "*::at", "*::find", "*::count")

    def __init__(self, an, table, allf):
        super().__init__()
        self.an = an
        self.tab = table
        self.allf = allf
        self.loads = {}
        self.nins = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("BeesCrawl", "BeesRoots")

    def ignore_exc(self, ctx, n, name):
        return False

    def keys(self, s):
        r = set()
        has(s, lambda x: r.add(x[1]) if x[0] == "s" else False)
        return r

    def on_bind(self, st, ctx, var, typ, s):
        t = typ.replace("const ", "")
        if strip_t(t).startswith("BeesCrawlState") or t == "BeesCrawlState":
            out = frozenset(x for x in st if not (isinstance(x, tuple) and len(x) > 1 and x[1] == var))
            # what a helper returned
            out = frozenset((x[0], var) + x[2:] if isinstance(x, tuple) and x[1:2] == ("ret",) else x for x in out)
            return [out | {"rec"}]
        if t.startswith("std::map<std::") and "unsigned long" in t and "&" not in t:
            self.drop(st, ctx)
            # a helper's map and the caller's are the same record
            return [frozenset({"rech"} if ctx.stack else {"rec"})]
        return None

    def on_return(self, st, ctx, n, s):
        s = peel1(s) if s else s
        if ctx.stack and s and s[0] == "v" and any(isinstance(x, tuple) and x[1] == s[1] for x in st):
            return [frozenset((x[0], "ret") + x[2:] if isinstance(x, tuple) and x[1] == s[1] else x for x in st)]
        return None

    def drop(self, st, ctx):
        if "rec" in st:
            self.report(ctx, "dropped", "a saved record can be ignored when the state is loaded")

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and lhs[2].startswith(BCS) and lhs[1][0] == "v":
            F, v = lhs[2], lhs[1][1]
            ks = self.keys(self.an.canon(rhs)) | self.keys(rhs)
            if ks & set(self.tab):
                self.instances.add((ctx.fn.id, ctx.node))
                wrong = sorted(k for k in ks if k in self.tab and F not in self.tab[k])
                if wrong or op != "=":
                    self.report(ctx, "crossed:" + last(F), "%s is loaded from %s, which was saved from another field" % (last(F), ", ".join(wrong)))
                if not any(k in self.tab and F in self.tab[k] for k in ks):
                    self.report(ctx, "lost:" + last(F), "%s is not loaded from the key it is saved under" % last(F))
                x = peel1(rhs)
                if x[0] not in ("c", "f", "v", "o") or x[0] == "o" and x[1] not in ("?:",):
                    self.report(ctx, "changed:" + last(F), "%s is changed while it is loaded" % last(F))
                self.loads.setdefault(F, set()).update(ks)
                return [st | {("set", v, F)}]
            if ks and ("set", v, F) not in st and op == "=":
                # a key that only older versions wrote
                return [st | {("set", v, F)}]
            if ("set", v, F) in st:
                if ("bad", v, F) not in st:
                    self.report(ctx, "overwritten:" + last(F), "the loaded %s is replaced by something else" % last(F))
        return None

    def on_branch(self, st, ctx, facts):
        add = set()
        for s, p in facts:
            e = eq_sides(s)
            if e and p:
                for a, b in (e, e[::-1]):
                    if a[0] == "f" and a[2].startswith(BCS) and a[1][0] == "v" and (self.an.kval(b) in (-1, 2 ** 64 - 1) or has(b, lambda x: x[0] == "c" and last(x[1]) == "max")):
                        add.add(("bad", a[1][1], a[2]))
            x = s
            if x[0] == "c" and last(x[1]) in ("count", "contains") and not p:
                for k in self.keys(x) & set(self.tab):
                    add.add(("absent", k))
            if e and p:
                for a, b in (e, e[::-1]):
                    if a[0] == "c" and last(a[1]) == "find" and b[0] == "c" and last(b[1]) in ("end", "cend"):
                        for k in self.keys(a) & set(self.tab):
                            add.add(("absent", k))
                    if a[0] == "c" and last(a[1]) == "count" and konst(b) == 0:
                        for k in self.keys(a) & set(self.tab):
                            add.add(("absent", k))
        return [st | add] if add else None

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "BeesRoots::insert_root":
            self.nins += 1
            self.instances.add((ctx.fn.id, ctx.node))
            a = peel1(args[0])
            if a[0] != "v":
                self.report(ctx, "argument", "something other than the loaded record is used")
                return None
            for F in sorted(self.allf):
                if ("set", a[1], F) not in st:
                    keys = [k for k, v in self.tab.items() if F in v]
                    if not any(("absent", k) in st for k in keys):
                        self.report(ctx, "unset:" + last(F), "a record is used without loading its %s" % last(F))
            return [frozenset()]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret":
            self.drop(st, ctx)
        return None


class Dirty(NameAut):
    """a change of the state to be saved is followed by marking it as changed"""
    names = ("ProgressTracker::hold", MARK, "*::insert", "*::emplace", "*::erase", "*::clear", "*::insert_or_assign", "*::operator[]", "*::extract", "std::swap")
    fields = (DIRTY,)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short.startswith("ProgressTracker::")

    def ignore_exc(self, ctx, n, name):
        return True

    def after_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if name == "ProgressTracker::hold":
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {"pending"}]
        if l in ("insert", "emplace", "erase", "clear", "insert_or_assign", "operator[]", "extract") and is_field(recv, MAP) or name == "std::swap" and any(is_field(a, MAP) for a in args):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {"pending"}]
        if name == MARK:
            return [st - {"pending"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if is_field(lhs, DIRTY):
            return [st - {"pending"}]
        return None

    def on_access(self, st, ctx, n, s, mode):
        if is_field(s, DIRTY) and "w" in mode:
            return [st - {"pending"}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and "pending" in st:
            self.report(ctx, "unmarked", "a scan position or the set of crawlers changes without marking the saved state as out of date afterwards")
        return None


class LoadFirst(NameAut):
    names = ("BeesRoots::state_load", "BeesRoots::state_save", "BeesRoots::crawl_thread", "BeesRoots::writeback_thread", "BeesThread::exec", "BeesScanMode::next_transid")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.users = reachers(an, ("BeesRoots::state_save", "BeesRoots::crawl_thread"))

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short in self.names

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "BeesRoots::state_load":
            return [st | {"loaded"}]
        use = name in ("BeesRoots::state_save", "BeesRoots::crawl_thread", "BeesRoots::writeback_thread", "BeesScanMode::next_transid")
        if last(name) == "exec" and "BeesThread" in name:
            found = []
            for a in args:
                has(a, lambda x: found.append(x[1]) if x[0] == "lam" else False)
            # a thread function that loads first by itself is checked on its own
            use = any(l in self.users and l not in self.loaders for l in found)
        if use:
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if "loaded" not in st:
                self.report(ctx, "order", "crawling or saving starts before the saved state was loaded")
        return None


def bcs_fields(an):
    r = an.P.records.get("BeesCrawlState")
    if not r:
        raise AnalysisBroken("BeesCrawlState was not found")
    return {x["name"] for x in r["fields"]}


def c13(an, R):
    P = an.P
    allf = {x if x.startswith(BCS) else BCS + x for x in bcs_fields(an)}
    R.rule("record", "every crawler is saved with all its fields, readably, and the state counts as saved only when that snapshot was written", 4)
    tab, other = {}, set()
    sv = P.fn("BeesRoots::state_save")
    if not sv:
        raise AnalysisBroken("BeesRoots::state_save was not found")
    for f in sv:
        a, e = run(an, f, lambda: Save(an, allf), R)
        tab, other = a.table, a.other
        if report_all(an, R, f, a):
            R.check(a.nrow > 0 and a.nwrite > 0, "records written by %s" % f.short, "%s:none" % f.short, an.where(f), "no record is saved", f)
            R.check(a.nclean > 0, "clean mark of %s" % f.short, "%s:noclean" % f.short, an.where(f), "the state is never marked saved", f)
    for fld in sorted(allf):
        ks = [k for k, v in tab.items() if fld in v]
        if ks:
            R.ok("%s saved as %s" % (last(fld), ",".join(ks)), sv[0])
    for k, v in sorted(tab.items()):
        R.check(len(v) == 1 and k not in other, "key %s is unique" % k, "key:%s" % k, an.where(sv[0]), "two values are saved under the key %s" % k, sv[0])
    for f, r, kind, i in an.field_writes.get(CLEAN, ()):
        if kind != "init":
            R.check(f.id in {x.id for x in sv} | reachable_from(an, sv), "clean mark only in state_save", "%s:clean" % f.short, an.where(f, i), "the state is marked saved outside of saving", f)
    R.rule("restore", "loading puts every saved value into the field it was saved from and uses every record", 2)
    ld = P.fn("BeesRoots::state_load")
    if not ld:
        raise AnalysisBroken("BeesRoots::state_load was not found")
    for f in ld:
        a, e = run(an, f, lambda: Load(an, tab, allf), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.nins > 0, "records used by %s" % f.short, "%s:none" % f.short, an.where(f), "no record is used", f)
        for fld in sorted(allf):
            R.check(fld in a.loads, "%s restored" % last(fld), "%s:missing:%s" % (f.short, last(fld)), an.where(f), "%s is saved but never loaded" % last(fld), f)
    init = [(f, r, i) for f, r, kind, i in an.field_writes.get("BeesCrawl::m_state", ()) if kind == "init"]
    for f, r, i in init:
        s = an.canon(P.sym(f, r))
        ps = [p for p in f.params if "BeesCrawlState" in p.get("t", "")]
        R.check(bool(ps) and has(s, lambda x: x[0] == "v" and x[1] in {p["var"] for p in ps} or x[0] == "v" and "BeesCrawlState" in vtype(an, x[1])),
                "a crawler starts at its record's position", "%s:start" % f.short, an.where(f, i), "a crawler does not start at the position it is created with", f)
    R.check(bool(init), "crawler initialised", "m_state:none", "src/bees-roots.cc", "the crawler's position is not initialised", None)
    R.rule("mark-changed", "every change of a position or of the set of crawlers marks the saved state as out of date, after the change", 3)
    rs = {}
    for f, i, m in an.sites({"ProgressTracker::hold"}):
        if f.cls == "BeesCrawl" or not f.short.startswith("ProgressTracker"):
            rs[f.id] = f
    nh = len(rs)
    for f in an.fns():
        for i, m in f.calls():
            if f.is_noise(i):
                continue
            l = last(short(m.get("n", "")))
            if "o" in m and l in ("insert", "emplace", "erase", "clear", "insert_or_assign", "operator[]", "extract") and is_field(P.sym(f, m["o"]), MAP):
                rs[f.id] = f
                if l in ("insert_or_assign", "operator[]", "clear"):
                    R.check(False, "", "%s:%s" % (f.short, l), an.where(f, i), "an existing crawler and its position can be replaced or dropped", f)
    if not nh or len(rs) - nh < 2:
        raise AnalysisBroken("the changes of the crawl state were not found")
    for f in rs.values():
        a, e, v = an.prove(f, lambda: Dirty(an), 2, throw=False, want_access=True)
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("changes marked in %s" % f.short, f)
    for f, r, kind, i in an.field_writes.get(DIRTY, ()):
        if kind != "init":
            n = f.nodes[i]
            R.check(n["k"] == "un" and n["op"] in ("++", "p++"), "change counter only grows in %s" % f.short, "%s:counter" % f.short, an.where(f, i), "the change counter is set to something other than its successor", f)
            R.check(any((mutex_class(m) or "").endswith("BeesRoots::m_mutex") for m in an.L.held(f, i) or ()), "change counter locked in %s" % f.short, "%s:unlocked" % f.short, an.where(f, i),
                    "the change counter is changed without its lock", f)
    R.rule("load-first", "saved state is loaded before anything crawls or saves", 1)
    loaders = reachers(an, ("BeesRoots::state_load",))
    n = 0
    todo = {}
    for f in an.fns():
        for i, m in f.calls():
            nm = short(m.get("n", ""))
            if nm in ("BeesRoots::crawl_thread", "BeesRoots::writeback_thread", "BeesRoots::state_load"):
                g = f
                while g.is_lambda and P.lambda_owner.get(g.id) in P.fns and not thread_fn(an, g.id):
                    g = P.fns[P.lambda_owner[g.id]]
                if not (g.is_lambda and g.id not in loaders):
                    todo[g.id] = g
    for g in todo.values():
        def mk():
            a = LoadFirst(an)
            a.loaders = loaders
            return a
        a, e = run(an, g, mk, R, follow_dtors=False)
        n += a.n
        report_all(an, R, g, a)
        if not a.violations:
            R.ok("state loaded first in %s" % g.short, g)
    if n < 2:
        raise AnalysisBroken("the start of crawling and saving was not found")
    return ["a state file that cannot be parsed is reported and ignored from the bad line on"]


def thread_fn(an, lid):
    f, n = lam_nodes(an).get(lid, (None, None))
    if f is None:
        return False
    for i, m in f.calls():
        if last(short(m.get("n", ""))) == "exec":
            for a in m.get("a", ()):
                if has(an.P.sym(f, a), lambda x: x[0] == "lam" and x[1] == lid):
                    return True
    return False


def reachable_from(an, fs):
    P = an.P
    seen = {f.id for f in fs}
    w = list(fs)
    while w:
        f = w.pop()
        for i, m in f.calls():
            for t in P.targets(m):
                if t.id not in seen:
                    seen.add(t.id)
                    w.append(t)
    return seen


# --------------------------------------------------------------------- C14
def peelb(s):
    s = peel1(s)
    while s and s[0] == "c" and last(s[1]) in ("operator!", "operator bool") and s[2] is not None:
        s = s[2]
    return s


class Range(NameAut):
    """transaction ranges of the states crawlers are put into"""
    names = (SET, HOLD, "BeesRoots::insert_root")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.restarts = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("BeesCrawl", "BeesRoots", "BeesContext", "BeesCrawlState") and not fn.is_lambda

    def ignore_exc(self, ctx, n, name):
        return True

    def get(self, st, v):
        for t in st:
            if t[0] == "st" and t[1] == v:
                return t
        return None

    def put(self, st, v, **kw):
        t = self.get(st, v) or ("st", v, "old", "old", "old", "old")
        d = dict(zip(("min", "max", "obj", "off"), t[2:]))
        d.update(kw)
        return frozenset(x for x in st if not (x[0] == "st" and x[1] == v)) | {("st", v, d["min"], d["max"], d["obj"], d["off"])}

    def copy(self, st, v, s):
        s = peel1(s)
        if s[0] == "ctor" and not s[2]:
            return self.put(st, v, min="zero", max="zero", obj="zero", off="zero")
        src = self.get(st, s[1]) if s[0] == "v" else None
        if src:
            return frozenset(x for x in st if not (x[0] == "st" and x[1] == v)) | {("st", v) + src[2:]}
        return self.put(st, v, min="old", max="old", obj="zero" if ("endzero",) in st else "old", off="old")

    def on_bind(self, st, ctx, var, typ, s):
        t = strip_t(typ)
        if t == "BeesCrawlState" and "*" not in typ:
            return [self.copy(st, var, s)]
        return self.scalar(st, var, s)

    def scalar(self, st, var, s):
        """remember a range's end kept in a variable"""
        r = peel1(s)
        out = frozenset(t for t in st if t[0] != "sc" or t[1] != var)
        if is_field(r, BCS + "m_max_transid"):
            t = self.get(st, r[1][1]) if r[1][0] == "v" else None
            if t and t[3] == "old" or r[1][0] == "c" and r[1][1] in (END, BEGIN):
                out = out | {("sc", var, "oldmax")}
        return [out] if out != st else None

    def rawvar(self, ctx, i):
        n = ctx.fn.nodes[i] if i is not None else None
        while n and n["k"] in ("cast", "ctor") and (n.get("s") is not None or len(n.get("a", ())) == 1):
            n = ctx.fn.nodes[n["s"] if n.get("s") is not None else n["a"][0]]
        return n.get("var") if n and n["k"] == "ref" else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and self.get(st, lhs[1]):
            return [self.copy(st, lhs[1], rhs)]
        if lhs[0] == "v":
            return self.scalar(st, lhs[1], rhs if op == "=" else ("?",))
        if lhs[0] != "f" or not lhs[2].startswith(BCS) or lhs[1][0] != "v":
            return None
        v, F = lhs[1][1], last(lhs[2])
        r = peel1(rhs)
        if op != "=":
            r = ("?",)
        if F == "m_objectid":
            return [self.put(st, v, obj="zero" if konst(r) == 0 else "other")]
        if F == "m_offset":
            return [self.put(st, v, off="zero" if konst(r) == 0 else "other")]
        loaded = has(self.an.canon(r), lambda x: x[0] == "c" and last(x[1]) in ("at", "find"))
        if F == "m_min_transid":
            k = "bad"
            rv = self.rawvar(ctx, n.get("R"))
            sc = [t for t in st if t[0] == "sc" and t[1] == rv] if op == "=" else []
            if sc:
                k = sc[0][2]
            elif is_field(r, BCS + "m_max_transid"):
                t = self.get(st, r[1][1]) if r[1][0] == "v" else None
                if t and t[3] == "old" or r[1][0] == "c" and r[1][1] in (END, BEGIN):
                    k = "oldmax"
            elif is_field(r, BCS + "m_min_transid"):
                k = "old"
            elif r[0] == "c" and r[1] == "BeesRoots::transid_min":
                k = "tmin"
            elif konst(r) == 0:
                k = "zero"
            elif loaded:
                k = "loaded"
            return [self.put(st, v, min=k)]
        if F == "m_max_transid":
            k = "bad"
            now = lambda x: x[0] == "c" and x[1] in ("BeesRoots::transid_max", "BeesRoots::transid_max_nocache")
            if now(r):
                k = "now"
            elif r[0] == "c" and last(r[1]) == "max" and len(r[3]) == 2 and any(now(peel1(x)) for x in r[3]) and any(is_field(peel1(x), BCS + "m_max_transid") for x in r[3]):
                k = "now"
            elif is_field(r, BCS + "m_max_transid"):
                k = "old"
            elif is_field(r, BCS + "m_min_transid"):
                k = "min"
            elif loaded:
                k = "loaded"
            return [self.put(st, v, max=k)]
        return None

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            b = None
            e = eq_sides(s)
            if is_field(s, BCS + "m_objectid") and not p:
                b = s[1]
            elif e and p and any(konst(x) == 0 for x in e):
                for x in e:
                    if is_field(x, BCS + "m_objectid"):
                        b = x[1]
            elif s[0] == "o" and s[1] == "<" and konst(s[2]) == 0 and is_field(s[3], BCS + "m_objectid") and not p:
                b = s[3][1]
            if b is None:
                continue
            if b[0] == "v":
                out = self.put(out, b[1], obj="zero")
            elif b[0] == "c" and b[1] in (END, BEGIN):
                out = frozenset(("st", t[1], t[2], t[3], "zero" if t[4] == "old" else t[4], t[5]) if t[0] == "st" and t[2] == "old" else t for t in out) | {("endzero",)}
        return [out] if out != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        if name not in (SET, HOLD, "BeesRoots::insert_root") or not args:
            return None
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        a = peel1(args[0])
        t = self.get(st, a[1]) if a[0] == "v" else None
        if t is None:
            if a[0] in ("ctor", "new") and a[2]:
                return None
            return None
        mn, mx, obj, off = t[2:]
        if "bad" in (mn, mx):
            self.report(ctx, "source", "a crawler gets a transaction range that is neither its own, the next one, nor that of a new crawler")
        elif mn == "oldmax":
            self.restarts += 1
            if mx != "now":
                self.report(ctx, "no-max", "a new scan cycle does not end at the current transaction")
            elif obj != "zero" or off != "zero":
                self.report(ctx, "not-from-start", "a new scan cycle does not begin at the first object")
        elif mx == "now" and mn == "old" and obj != "zero":
            self.report(ctx, "moved-max", "the end of the transaction range moves while a scan is under way")
        elif mn in ("tmin", "zero") and mx in ("now", "old", "zero") and (obj not in ("zero",) or off not in ("zero",)):
            self.report(ctx, "new-not-from-start", "a new crawler does not begin at the first object")
        return None


class CycleEnd(NameAut):
    """a scan cycle is restarted only when nothing is left in it"""
    names = ("BeesCrawl::restart_crawl", "BeesCrawl::restart_crawl_unlocked", "*::lower_bound", "*::operator!", "*::operator bool")
    fields = ("BeesCrawl::m_next_extent_data", "BeesCrawl::m_finished")
    LOOK = ("lower_bound",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short in ("BeesCrawl::restart_crawl_unlocked", SET, HOLD, END, BEGIN) or "BtrfsTree" in fn.short.split("::")[0]

    def look(self, ctx, s):
        s = peelb(s)
        return s[0] == "c" and last(s[1]) in self.LOOK and "Fetcher" in s[1]

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            neg = s[0] == "c" and last(s[1]) == "operator!"
            x = peelb(s)
            val = p != neg
            if not val and (self.look(ctx, x) or is_field(x, "BeesCrawl::m_next_extent_data") and "tried" in st and "trying" not in st or x[0] == "v" and ("item", x[1]) in st):
                out = out | {"done"}
            if is_field(x, "BeesCrawl::m_finished") and val:
                out = out | {"done"}
            if s[0] == "o" and s[1] == "<" and not p and is_field(s[2], BCS + "m_min_transid") and is_field(s[3], BCS + "m_max_transid"):
                out = out | {"done"}
        return [out] if out != st else None

    def on_bind(self, st, ctx, var, typ, s):
        if "BtrfsTreeItem" in typ:
            out = st - {("item", var)}
            if self.look(ctx, s):
                out = out | {("item", var)}
            return [out]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and (("item", lhs[1]) in st or self.look(ctx, rhs)):
            out = st - {("item", lhs[1])}
            return [out | {("item", lhs[1])} if self.look(ctx, rhs) else out]
        if is_field(lhs, "BeesCrawl::m_next_extent_data"):
            return [st - {"done"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) in self.LOOK and "Fetcher" in name:
            return [st - {"tried", "done"} | {"trying"}]
        if name in ("BeesCrawl::restart_crawl", "BeesCrawl::restart_crawl_unlocked"):
            if name.endswith("unlocked") and ctx.fn.short == "BeesCrawl::restart_crawl" and ctx.stack:
                return None
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if "done" not in st:
                self.report(ctx, "early", "a new scan cycle is started although the current one is not known to be finished")
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if last(name) in self.LOOK and "Fetcher" in name:
            return [st - {"trying"} | {"tried"}]
        return None


class UpToDate(NameAut):
    """a true result implies that the range ends at or after the current transaction"""
    names = ("BeesRoots::transid_max", "BeesRoots::transid_max_nocache")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return True

    def ignore_exc(self, ctx, n, name):
        return True

    def now(self, s):
        s = peel1(s)
        return s[0] == "c" and s[1] in self.names or s[0] == "v" and any(self.now(t) for t in self.an.roots(s) if t[0] == "c")

    def mx(self, s):
        return is_field(peel1(s), BCS + "m_max_transid")

    def implies(self, s, p):
        """s being p shows now <= max"""
        while s[0] == "not":
            s, p = s[1], not p
        if s[0] == "o" and s[1] == "<":
            if not p:
                return self.mx(s[2]) and self.now(s[3])
            return self.now(s[2]) and self.mx(s[3])
        e = eq_sides(s)
        return bool(e and p and any(self.mx(x) for x in e) and any(self.now(x) for x in e))

    def on_branch(self, st, ctx, facts):
        if any(self.implies(s, p) for s, p in facts):
            return [st | {"yes"}]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack or "yes" in st or konst(s) == 0 or self.implies(s, True):
            return None
        if s[0] == "o" and s[1] == "&&" and any(self.implies(x, True) for x in s[2:]):
            return None
        self.report(ctx, "value", "a crawl counts as finished although its range does not reach the current transaction")
        return None


class Wake(NameAut):
    """crawl_thread: a changed transaction number runs the new-transaction task"""
    names = ("BeesRoots::transid_max_nocache", "*::run", "*::idle", "*::count")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.goal = {f.id for f in an.P.fns.values() if last(f.short) == "next_transid"}

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short in ("BeesRoots::transid_max_nocache", "BeesRoots::clear_caches")

    def reaches(self, l):
        seen, w = set(), [l]
        while w:
            x = w.pop()
            if x in seen or x not in self.an.P.fns:
                continue
            seen.add(x)
            f = self.an.P.fns[x]
            for m in f.nodes:
                if m and m["k"] in ("call", "ctor"):
                    if last(short(m.get("n", ""))) == "next_transid":
                        return True
                elif m and m["k"] == "lam":
                    w += m["f"]
        return False

    def tid(self, s):
        return has(s, lambda x: x[0] == "c" and last(x[1]) in ("count", "transid_max", "transid_max_nocache") and x[1].split("::")[0] in ("RateEstimator", "BeesRoots"))

    def news(self, st, s, p):
        """variables whose difference from the current transaction s == p shows"""
        e = eq_sides(s)
        if e and any(self.tid(x) or x[0] == "v" and ("now", x[1]) in st for x in e):
            return [x[1] for x in e if x[0] == "v" and ("now", x[1]) not in st]
        return []

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            if s[0] == "v" and ("is", s[1], not p) in st:
                return []
            for v in self.news(st, s, p):
                self.n += 1
                if not p:
                    out = out | {("new", v)}
        return [out] if out != st else None

    def on_bind(self, st, ctx, var, typ, s):
        st0 = frozenset(t for t in st if not (t[0] == "is" and t[1] == var))
        neg = False
        while s and s[0] == "not":
            s, neg = s[1], not neg
        if "bool" in typ:
            vs = self.news(st, s, True)
            if vs:
                self.n += 1
                return [st0 | {("is", var, not neg)}, st0 | {("is", var, neg)} | {("new", v) for v in vs}]
        if self.tid(s):
            return [st0 | {("now", var)}]
        return [st0] if st0 != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "transid_max_nocache" and any(t[0] == "new" for t in st):
            self.report(ctx, "missed", "a new transaction is taken note of without looking for new work in every crawler")
        if l in ("run", "idle") and "Task" in name and recv is not None:
            found = []
            has(recv, lambda x: found.append(x[1]) if x[0] == "lam" else False)
            if not found and recv[0] == "v":
                for r in self.an.roots(recv):
                    has(r, lambda x: found.append(x[1]) if x[0] == "lam" else False)
            if any(self.reaches(x) for x in found):
                self.instances.add((ctx.fn.id, ctx.node))
                return [frozenset(t for t in st if t[0] != "new")]
        return None


class Undefer(NameAut):
    """next_transid: every crawler may look for work again, and scanning starts"""
    names = ("BeesRoots::insert_new_crawl", "BeesRoots::insert_root", "BeesCrawl::deferred", "*::start_scan", "*::init_tasks")

    def __init__(self, an, need):
        super().__init__()
        self.an = an
        self.need = need
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or last(fn.short) in ("init_tasks", "insert_new_crawl", "start_scan") or fn.short == "BeesCrawl::deferred"

    def ignore_exc(self, ctx, n, name):
        return True

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            e = eq_sides(s)
            if e and "scan" not in st:
                a = [x[1] if x[0] == "c" else "" for x in e]
                nm = [last(x) for x in a]
                if "find" in nm and ("end" in nm or "cend" in nm):
                    return [st - {"pend"} | {"undef"} if p else st | {"pend"}]
            if e and p:
                # the end of a table of constants before anything was done
                if "undef" not in st and any(x[0] == "c" and last(x[1]) in ("end", "cend") and x[2] is not None and x[2][0] == "g" for x in e):
                    return []
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if name in ("BeesRoots::insert_new_crawl",) or name == "BeesCrawl::deferred" and len(args) == 1 and konst(args[0]) == 0:
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [st - {"pend"} | {"undef"}]
        if last(name) == "start_scan":
            if ("undef" not in st or "pend" in st) and "undef" in self.need:
                self.report(ctx, "still-deferred", "scanning is started for a new transaction before the crawlers may look for work again")
            return [st | {"scan"}]
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        for x in self.need:
            if x not in st or x == "undef" and "pend" in st:
                self.report(ctx, "no-" + x, "a new transaction does not make the crawlers look for work again" if x == "undef" else "a new transaction does not start the scan")
        return None


def c14(an, R):
    P = an.P
    R.rule("range", "a crawler's transaction range is its own, the adjoining next one scanned from the start, or that of a new crawler", 4)
    fs = {}
    for f, i, m in an.sites({SET, HOLD, "BeesRoots::insert_root"}):
        fs[f.id] = f
    nr = 0
    for f in fs.values():
        a, e = run(an, f, lambda: Range(an), R, follow_dtors=False)
        nr += a.restarts
        if report_all(an, R, f, a) and a.n:
            R.ok("transaction ranges in %s" % f.short, f)
    R.check(nr > 0, "new cycles start", "no-cycle", "src/bees-roots.cc", "no crawler is ever given the transaction range adjoining the one it has finished")
    for F in ("m_min_transid", "m_max_transid"):
        for f, r, kind, i in an.field_writes.get(BCS + F, ()):
            if f.id in an.reach and f.cls != "BeesCrawlState":
                R.check(f.id in fs or any(x.id in fs for x in an.callers_of(f)), "%s set in %s" % (F, f.short), "%s:%s" % (f.short, F), an.where(f, i), "a transaction range is changed outside the functions that start crawlers and cycles", f)
    n = 0
    for f in P.fn("BeesCrawlState::operator<"):
        for i in f.live_nodes():
            if f.nodes[i]["k"] == "ret":
                s = P.sym(f, f.nodes[i]["s"])
                if s[0] == "o" and s[1] == "<" and s[2][0] == "c" and last(s[2][1]) in ("tie", "make_tuple", "forward_as_tuple"):
                    n += 1
                    o1 = [last(x[2]) for x in s[2][3] if x[0] == "f"]
                    o2 = [last(x[2]) for x in s[3][3] if x[0] == "f"]
                    R.check(o1 == o2 and o1[:2] == ["m_min_transid", "m_max_transid"] and o1[2:4] == ["m_objectid", "m_offset"] and s[2][3][0][1] == ("this",) and s[3][3][0][1] != ("this",),
                            "order of positions", "%s:order" % f.short, an.where(f, i), "positions are not ordered by transaction range first and place within it second", f)
    R.rule("cycle-end", "a scan cycle is restarted only after the current range was searched to its end", 3)
    cs = {}
    for f, i, m in an.sites({"BeesCrawl::restart_crawl", "BeesCrawl::restart_crawl_unlocked"}):
        cs[f.id] = f
    if not cs:
        raise AnalysisBroken("no scan cycle is restarted")
    for f in cs.values():
        a, e, v = an.prove(f, lambda: CycleEnd(an), 2)
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("cycle end in %s" % f.short, f)
    for f in P.fn("BeesRoots::up_to_date"):
        a, e = run(an, f, lambda: UpToDate(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("finished means up to date", f)
    for f, r, kind, i in an.field_writes.get("BeesCrawl::m_finished", ()):
        if kind == "init":
            continue
        s = an.canon(P.sym(f, r)) if r is not None else ("?",)
        ok = konst(s) == 0 or s[0] == "c" and s[1] == "BeesRoots::up_to_date" or has(s, lambda x: is_field(x, BCS + "m_max_transid")) and has(s, lambda x: x[0] == "c" and x[1] == "BeesRoots::transid_max")
        R.check(ok, "finished set in %s" % f.short, "%s:finished" % f.short, an.where(f, i), "a crawl is marked finished although its range may not reach the current transaction", f)
    R.rule("filter", "an extent is passed over for its generation only if that is below the range's begin or above its end", 4)
    gens = ("extent_generation", "file_extent_generation")
    for f in an.fns():
        for i in f.live_nodes():
            nd = f.nodes[i]
            if not (nd["k"] == "bin" and nd.get("op") in ("<", ">", "<=", ">=", "==", "!=") or nd["k"] == "call" and nd.get("op") in ("<", ">", "<=", ">=", "==", "!=")) or f.is_noise(i):
                continue
            s = P.sym(f, i)
            while s[0] == "not":
                s = s[1]
            if s[0] != "o" or len(s) != 4:
                continue
            side = [("gen" if x[0] == "c" and last(x[1]) in gens else "min" if is_field(x, BCS + "m_min_transid") else "max" if is_field(x, BCS + "m_max_transid") else "?") for x in s[2:4]]
            if "gen" not in side:
                if has(s, lambda x: x[0] == "c" and last(x[1]) in gens) and has(s, lambda x: x[0] == "f" and x[2] in (BCS + "m_min_transid", BCS + "m_max_transid")):
                    R.bad("%s:shifted" % f.short, an.where(f, i), "an extent's generation is compared with a changed range", [], f)
                continue
            if "min" in side or "max" in side:
                R.check(s[1] == "<" and side in (["gen", "min"], ["max", "gen"]), "generation filter in %s" % f.short, "%s:%s" % (f.short, "-".join(side)), an.where(f, i),
                        "extents whose generation lies in the range (its ends included) are passed over", f)
    for f, i, m in an.sites({"BtrfsTreeFetcher::transid"}):
        if not m.get("a"):
            continue
        s = an.canon(P.sym(f, m["a"][0]))
        raw = P.sym(f, m["a"][0])
        ok = is_field(raw, BCS + "m_min_transid") or is_field(s, BCS + "m_min_transid") or an.kval(s) == 0
        hi = len(m["a"]) < 2 or an.kval(P.sym(f, m["a"][1])) in (-1, 2 ** 64 - 1) or has(P.sym(f, m["a"][1]), lambda x: x[0] == "c" and x[1] == "std::numeric_limits::max")
        R.check(ok, "search begins at the range's begin in %s" % f.short, "%s:search-min" % f.short, an.where(f, i), "the metadata search leaves out part of the transaction range", f)
        R.check(hi, "search has no upper limit in %s" % f.short, "%s:search-max" % f.short, an.where(f, i), "metadata pages changed after the range's end are not searched for older extents", f)
    R.rule("wake", "each new transaction lets every crawler look for work again", 4)
    w = 0
    for f in P.fn("BeesRoots::crawl_thread"):
        a, e = run(an, f, lambda: Wake(an), R, follow_dtors=False)
        w += a.n
        if report_all(an, R, f, a):
            R.check(a.n > 0, "new transactions noticed in %s" % f.short, "%s:none" % f.short, an.where(f), "the transaction number is not compared with the last one seen", f)
    nt = 0
    for f in P.fns.values():
        if last(f.short) == "next_transid" and not f.is_lambda and f.short != "BeesScanMode::next_transid":
            nt += 1
            a, e = run(an, f, lambda: Undefer(an, ("undef", "scan")), R, follow_dtors=False)
            if report_all(an, R, f, a):
                R.ok("crawlers released in %s" % f.short, f)
    if nt < 2:
        raise AnalysisBroken("the scan modes' next_transid were not found")
    for f in P.fn("BeesRoots::insert_root"):
        a, e = run(an, f, lambda: Undefer(an, ("undef",)), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("crawler released by insert_root", f)
    reach = reachable_from(an, P.fn("BeesRoots::insert_new_crawl"))
    R.check(any(x.id in reach for x in P.fn("BeesRoots::insert_root")), "insert_new_crawl releases", "insert_new_crawl:none", "src/bees-roots.cc", "new transactions do not reach the crawlers", None)
    return ["the kernel's extent and extent-data generations and transaction ids are monotone"]

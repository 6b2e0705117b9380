"""C19 no wake-up is lost."""
from .common import *
from .rules_dedupe import key_fn
from .locks import mutex_class
from .rules_conc import under, cname, has_term

WAITS = ("std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable::wait_until")
ADDS = ("push_back", "push_front", "emplace_back", "emplace_front", "insert", "emplace", "splice", "merge", "swap", "operator=", "operator[]", "resize", "assign")
REMOVES = ("erase", "clear", "pop_front", "pop_back", "extract", "swap", "operator=", "resize", "assign")

# condition variable -> its mutex, what every wait looks at before it waits
# (each of, or any of), and the changes that can end a wait
CVS = {
    "LockSet::m_condvar": dict(mutex="LockSet::m_mutex", reads=["LockSet::m_set"], enable={"LockSet::m_set": "remove", "LockSet::m_max_size": "any"}),
    "MultiLocker::m_cv": dict(mutex="MultiLocker::m_mutex", reads=["MultiLocker::m_counters"], enable={"MultiLocker::m_counters": "decrease"}, skip="nonzero"),
    "TaskMasterState::m_condvar": dict(mutex="TaskMasterState::m_mutex", reads=[], any=["TaskMasterState::m_queue", "TaskMasterState::m_threads"],
                                       enable={"TaskMasterState::m_queue": "add", "TaskMasterState::m_idle_queue": "add", "TaskMasterState::m_paused": "any",
                                               "TaskMasterState::m_thread_max": "any", "TaskMasterState::m_threads": "remove"}, skip="same"),
    "BeesHashTable::m_dirty_condvar": dict(mutex="BeesHashTable::m_dirty_mutex", reads=["BeesHashTable::m_stop_requested", "BeesHashTable::m_dirty"],
                                           enable={"BeesHashTable::m_dirty": "true", "BeesHashTable::m_stop_requested": "true"}, one=True),
    "BeesHashTable::m_stop_condvar": dict(mutex="BeesHashTable::m_stop_mutex", reads=["BeesHashTable::m_stop_requested"], enable={"BeesHashTable::m_stop_requested": "true"}),
    "BeesRoots::m_stop_condvar": dict(mutex="BeesRoots::m_stop_mutex", reads=["BeesRoots::m_stop_requested"], enable={"BeesRoots::m_stop_requested": "true"}),
    "BeesContext::m_stop_condvar": dict(mutex="BeesContext::m_stop_mutex", reads=[], any=["BeesContext::m_stop_requested", "BeesContext::m_stop_status"],
                                        enable={"BeesContext::m_stop_requested": "true", "BeesContext::m_stop_status": "true"}),
    "RateEstimator::m_condvar": dict(mutex="RateEstimator::m_mutex", reads=["RateEstimator::m_last_count"], enable={"RateEstimator::m_last_count": "any"}, skip="notime"),
}
# what the task workers look at before they wait for work
CONSUMER = ["TaskMasterState::m_paused", "TaskMasterState::m_queue", "TaskMasterState::m_idle_queue", "TaskMasterState::m_thread_max", "TaskMasterState::m_threads"]


def first_used(s):
    """the containers among which s is the first that is not empty, when s is
    !a.empty() ? a : !b.empty() ? b : c"""
    out = set()
    while s and s[0] == "o" and s[1] == "?:" and len(s) == 5:
        c = s[2]
        neg = c[0] == "not"
        c = c[1] if neg else c
        used = s[3 if neg else 4]
        if not (c[0] == "c" and last(c[1]) == "empty" and c[2] == used and used[0] == "f"):
            return set()
        out.add(used[2])
        s = s[4 if neg else 3]
    if out and s[0] == "f":
        out.add(s[2])
        return out
    return set()


def first_pick(an, f, s):
    """the same for a pointer variable that is set to a container when that is
    found not to be empty, and to the last one otherwise"""
    if not s or s[0] != "v":
        return set()
    ds = f.defs.get(s[1], ())
    out = set()
    for kind, j, x in ds:
        if kind == "method" and x.get("op") != "=":
            continue
        if kind not in ("decl", "as") or j is None or j < 0:
            return set()
        t = an.P.sym(f, j, None, 0, False)
        while t[0] in ("addr", "&") and len(t) == 2:
            t = t[1]
        if t[0] != "f":
            return set()
        if kind == "as":
            # only reached where that container is not empty
            up = {j}
            k = j
            while f.parents.get(k) and f.parents[k][0] >= 0 and f.parents[k][0] not in up:
                k = f.parents[k][0]
                if f.nodes[k]["k"] not in ("as", "call", "cast", "un"):
                    break
                up.add(k)
            home = [b for b in f.blocks if any(not isinstance(e, dict) and e in up for e in b["el"])]
            good = bool(home)
            for h in home:
                for b in f.blocks:
                    if h["id"] in b["su"]:
                        c = an.P.sym(f, b["tc"], None, 0, False) if b.get("tc") is not None else ("?",)
                        neg = c[0] == "not"
                        c = c[1] if neg else c
                        good &= c[0] == "c" and last(c[1]) == "empty" and c[2] == t and b["su"].index(h["id"]) == (0 if neg else 1)
            if not good:
                return set()
        out.add(t[2])
    return out if len(out) > 1 else set()


class Wakeups:
    def __init__(self, an, R):
        self.an, self.R, self.P = an, R, an.P
        self._reads = {}
        self._notifies = {}
        self._joins = {}

    # ------------------------------------------------------------ helpers
    def calls_in(self, f, i):
        """functions that run to completion at node i"""
        n = f.nodes[i]
        out = []
        if n["k"] in ("call", "ctor"):
            out += [t.id for t in self.P.targets(n)]
            out += self.an.L.sync_lambda_args(f, n)
        return out

    def reads(self, fid, depth=0):
        """fields fn may read, in it or its callees"""
        if fid in self._reads:
            return self._reads[fid]
        self._reads[fid] = set()
        f = self.P.fns.get(fid)
        out = set()
        if f and depth < 6:
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] == "mem":
                    out.add(short(n["fd"]))
                elif n["k"] in ("call", "ctor"):
                    for t in self.calls_in(f, i):
                        out |= self.reads(t, depth + 1)
        self._reads[fid] = out
        return out

    def node_reads(self, f, i):
        n = f.nodes[i]
        out = set()
        if n["k"] == "mem" and not self.stored_only(f, i):
            out.add(short(n["fd"]))
        for t in self.calls_in(f, i):
            out |= self.reads(t)
        return out

    def stored_only(self, f, i):
        p = f.parents.get(i)
        return bool(p) and p[0] >= 0 and f.nodes[p[0]]["k"] == "as" and p[1][0] == "L" and f.nodes[p[0]].get("op", "=") == "="

    def cv_of(self, f, n):
        return mutex_class(self.P.sym(f, n["o"])) if "o" in n else None

    def is_notify(self, f, i, cv):
        n = f.nodes[i]
        return n["k"] == "call" and short(n.get("n", "")) in ("std::condition_variable::notify_all", "std::condition_variable::notify_one") and self.cv_of(f, n) == cv

    def notifies(self, fid, cv, seen=()):
        """fn notifies cv on every path to its end"""
        k = (fid, cv)
        if k in self._notifies:
            return self._notifies[k]
        f = self.P.fns.get(fid)
        if f is None or fid in seen or len(seen) > 4 or not f.blocks:
            return False
        r = self.escape(f, (f.bmap[f.entry], -1), cv, None, seen + (fid,)) is None
        self._notifies[k] = r
        return r

    def joins(self, fid, depth=0):
        """fn, or what it calls, waits for another thread to end"""
        if fid not in self._joins:
            self._joins[fid] = False
            f = self.P.fns.get(fid)
            self._joins[fid] = bool(f) and depth < 5 and any(self.join_at(f, i, depth + 1) for i in f.live_nodes())
        return self._joins[fid]

    def join_at(self, f, i, depth=0):
        n = f.nodes[i]
        return n["k"] == "call" and (short(n.get("n", "")) == "std::thread::join" or any(self.joins(t, depth) for t in self.calls_in(f, i)))

    def hits(self, f, i, cv, seen):
        return self.is_notify(f, i, cv) or any(self.notifies(t, cv, seen) for t in self.calls_in(f, i))

    def escape(self, f, start, cv, skip, seen=()):
        """a path (list of lines) from start to the end of f, or to a place where it waits
        for another thread to end, that does not notify cv, or None"""
        P = self.P
        done = set()
        st = [(start[0], start[1] + 1, (), frozenset())]
        while st:
            b, k, path, le = st.pop()
            stop = False
            for e in b["el"][k:]:
                if isinstance(e, dict):
                    continue
                if self.hits(f, e, cv, seen):
                    stop = True
                    break
                if self.join_at(f, e):
                    return list(path) + [f.nodes[e].get("l")]
            if stop or b.get("nr"):
                continue
            if b["id"] == f.exit or not b["su"]:
                return list(path)
            tc = b.get("tc", -1)
            for j, s in enumerate(b["su"]):
                if s < 0:
                    continue
                now = le
                if skip and tc is not None and tc >= 0 and len(b["su"]) == 2:
                    fs = list(P.facts_of(P.sym(f, tc), j == 0)) + list(P.facts_of(P.sym(f, tc, None, 0, False), j == 0))
                    # not a < b and not b < a
                    now = le | {x[2:4] for x, p in fs if x[0] == "o" and x[1] == "<" and not p}
                    fs += [(("o", "==", x, y), True) for x, y in now if (y, x) in now]
                    if any(skip(f, x, p) for x, p in fs):
                        continue
                if (s, now) in done or len(done) > 5000:
                    continue
                done.add((s, now))
                st.append((f.bmap[s], 0, path + (f.nodes[tc].get("l"),) if tc is not None and tc >= 0 else path, now))
        return None

    def where_in_blocks(self, f, i):
        """(block, index) of the statement element that contains node i"""
        j = i
        for _ in range(60):
            for b in f.blocks:
                for k, e in enumerate(b["el"]):
                    if e == j and not isinstance(e, dict):
                        return b, k
            p = f.parents.get(j)
            if p is None or p[0] < 0:
                return None
            j = p[0]
        return None

    # ------------------------------------------------------------ enabling changes
    def changes(self, f, i, kind):
        """node i (a mention of the field) makes such a change: the node that does it, or None"""
        j = i
        for _ in range(8):
            p = f.parents.get(j)
            if p is None or p[0] < 0:
                return None
            n = f.nodes[p[0]]
            k, role = n["k"], p[1]
            if k == "as" and role[0] == "L":
                if kind == "true" and konst(self.P.sym(f, n["R"])) == 0:
                    return None
                if kind == "decrease" and n.get("op") in ("=", "-=") or kind in ("any", "true", "remove", "add") and True:
                    return p[0]
                return None
            if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
                if kind == "any" or kind == "decrease" and "--" in n["op"]:
                    return p[0]
                return None
            if k == "call" and role[0] == "obj":
                nm = last(short(n.get("n", "")))
                if kind in ("any", "add") and nm in ADDS and not (nm == "operator[]") or kind in ("any", "remove") and nm in REMOVES:
                    return p[0]
                if kind == "decrease" and nm in ("operator[]", "at", "find", "begin", "operator->", "operator*"):
                    j = p[0]
                    continue
                return None
            if k == "call" and role[0] == "arg":
                nm = short(n.get("n", ""))
                if last(nm) in ("swap", "exchange") and kind in ("any", "add", "remove"):
                    return p[0]
                if last(nm) in ("splice", "merge") and kind in ("any", "remove"):
                    return p[0]
                return None
            if k == "decl":
                v = n["d"][role[1]]
                if kind == "decrease" and v.get("t", "").endswith("&"):
                    for x in f.live_nodes():
                        m = f.nodes[x]
                        if m["k"] == "ref" and m.get("var") == v["var"]:
                            r = self.changes(f, x, kind)
                            if r is not None:
                                return r
                return None
            if k in ("mem", "cast", "un"):
                j = p[0]
                continue
            return None
        return None

    def skips(self, kind, field):
        def f(fn, s, pol):
            if kind == "nonzero":
                if s[0] == "o" and s[1] == "==" and has(s, lambda y: y[0] == "f" and y[2] == field) and any(x[0] == "k" and x[1] == "0" for x in s[2:]):
                    return not pol
                return False
            if kind == "same":
                return s[0] == "o" and s[1] == "==" and pol and (has(s, lambda y: y[0] == "f" and y[2] == field) or self.from_field(fn, s, field))
            if kind == "notime":
                return s[0] == "o" and s[1] == "<" and s[2] == ("k", "0") and not pol and not has(s, lambda y: y[0] == "f" and y[2] == field)
            return False
        return f

    def from_field(self, fn, s, field):
        for x in walk(s):
            if x[0] == "v":
                for d in fn.defs.get(x[1], ()):
                    if d[0] == "decl" and d[1] is not None and d[1] >= 0 and any(fn.nodes[j]["k"] == "mem" and short(fn.nodes[j]["fd"]) == field for j in under(fn, d[1])):
                        return True
        return False

    def notified(self, f, at, cv, field, skip, depth=0):
        """every path from element `at` of f to its end, or on in its callers, notifies"""
        path = self.escape(f, at, cv, skip)
        if path is None:
            return None
        why = ["%s: %s ends without notifying" % (self.an.where(f), f.short)]
        if depth > 3:
            return why
        cs = [(g, j) for g, j in self.P.callers.get(f.id, ())]
        if f.is_lambda:
            cs = list(self.an.L.lam_sync_sites.get(f.id, ()))
        if not cs or f.d.get("over"):
            return why
        for g, j in cs:
            w = self.where_in_blocks(g, j)
            if w is None:
                return why
            r = self.notified(g, w, cv, field, skip, depth + 1)
            if r is not None:
                return [self.an.where(g, j)] + r
        return None

    # ------------------------------------------------------------ rules
    def run(self):
        R, an, P = self.R, self.an, self.P
        waits = {}
        ones = {}
        for f in P.fns.values():
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] != "call" or "o" not in n:
                    continue
                nm = short(n.get("n", ""))
                if nm in WAITS:
                    waits.setdefault(self.cv_of(f, n), []).append((f, i))
                elif nm == "std::condition_variable::notify_one":
                    ones.setdefault(self.cv_of(f, n), []).append((f, i))
        R.rule("checked", "what a thread waits for is looked at after taking the mutex the wait releases, and again after every wait", 10)
        for cv, ws in sorted(waits.items()):
            d = CVS.get(cv)
            for f, i in ws:
                self.checked(cv, d, f, i)
        R.rule("notified", "a change that can end a wait is followed by a notification on every path", 12)
        for cv, d in sorted(CVS.items()):
            if cv not in waits:
                continue
            for field, kind in sorted(d["enable"].items()):
                self.changed(cv, d, field, kind)
        R.rule("notify-one", "only condition variables a single thread waits on are notified with notify_one", 0)
        for cv, ns in sorted(ones.items()):
            for f, i in ns:
                ok = CVS.get(cv, {}).get("one") and len({g.short for g, _ in waits.get(cv, ())}) <= 1
                if ok:
                    R.ok("%s has one waiter, notified in %s" % (cname(cv), f.short), f)
                else:
                    R.bad("notify-one:%s:%s" % (cname(cv), key_fn(an, f.short, f)), an.where(f, i), "notify_one may wake another waiter of %s than the one that can go on" % cname(cv), [an.where(f, i)], f)

    def checked(self, cv, d, f, i):
        R, an, P = self.R, self.an, self.P
        n = f.nodes[i]
        key = "%s:%s" % (cname(cv), key_fn(an, f.short, f))
        timed = not short(n["n"]).endswith("::wait")
        pred = len(n["a"]) > (2 if timed else 1)
        want = list(d["reads"]) if d else []
        some = list(d.get("any", ())) if d else []
        if "TaskMasterState::m_queue" in some and "TaskMasterState::m_queue" in self.reads(f.id):
            want, some = CONSUMER, []
        if pred:
            r = set()
            for l in an.L.sync_lambda_args(f, n):
                r |= self.reads(l)
            miss = [x for x in want if x not in r] or (some and not any(x in r for x in some) and some[:1])
            if miss:
                R.bad("predicate:" + key, an.where(f, i), "the wait does not look at %s" % miss[0], [an.where(f, i)], f)
            else:
                R.ok("wait with predicate in %s" % f.short, f)
            return
        if not timed and not self.in_loop(f, i):
            R.bad("no-loop:" + key, an.where(f, i), "a wait that is not repeated returns on a spurious wake-up", [an.where(f, i)], f)
            return
        missing = [x for x in want if not self.read_before(f, i, {x}, d)]
        if some and not self.read_before(f, i, set(some), d):
            missing.append(some[0])
        if missing:
            R.bad("unchecked:" + key, an.where(f, i), "waits without having looked at %s since the mutex was taken or the last wait ended; a notification before the wait is lost" % missing[0], [an.where(f, i)], f)
        else:
            R.ok("wait on %s in %s" % (cname(cv), f.short), f)

    def in_loop(self, f, i):
        w = self.where_in_blocks(f, i)
        if w is None:
            return False
        seen, st = set(), [s for s in w[0]["su"] if s >= 0]
        while st:
            b = st.pop()
            if b == w[0]["id"]:
                return True
            if b not in seen:
                seen.add(b)
                st += [s for s in f.bmap[b]["su"] if s >= 0]
        # a caller's loop around a helper
        cs = self.an.L.lam_sync_sites.get(f.id, ()) if f.is_lambda else self.P.callers.get(f.id, ())
        return bool(cs) and len(f.nodes) < 400 and all(g.id != f.id and self.in_loop(g, j) for g, j in cs)

    def read_before(self, f, i, fields, d, depth=0):
        """on every path to node i one of the fields is read after the mutex was
        taken and after the last wait"""
        P = self.P
        w = self.where_in_blocks(f, i)
        if w is None:
            return False
        preds = {}
        for b in f.blocks:
            for s in b["su"]:
                if s >= 0:
                    preds.setdefault(s, []).append(b)
        guards = self.an.L.guards_of(f)
        gv = {v for v, (ms, lk) in guards.items() if any(mutex_class(m) == d["mutex"] for m in ms)}
        st = [(w[0], w[1] - 1)]
        seen = set()
        while st:
            b, k = st.pop()
            verdict = None
            while k >= 0:
                e = b["el"][k]
                k -= 1
                if isinstance(e, dict):
                    continue
                n = f.nodes[e]
                # the elements before a wait that belong to its own arguments do not matter
                if self.node_reads(f, e) & fields or n["k"] == "call" and last(short(n.get("n", ""))) in ("empty", "size") and "o" in n and (first_used(P.sym(f, n["o"])) | first_pick(self.an, f, P.sym(f, n["o"], None, 0, False))) & fields:
                    verdict = True
                    break
                if n["k"] == "decl" and any(v["var"] in gv for v in n["d"]):
                    verdict = False
                    break
                if n["k"] == "call" and "o" in n and last(short(n.get("n", ""))) == "lock" and f.nd(n["o"])["k"] == "ref" and f.nd(n["o"]).get("var") in gv:
                    verdict = False
                    break
                if n["k"] == "call" and short(n.get("n", "")) in WAITS:
                    verdict = False
                    break
            if verdict is False:
                return False
            if verdict is None:
                if b["id"] == f.entry:
                    cs = self.an.L.lam_sync_sites.get(f.id, ()) if f.is_lambda else self.P.callers.get(f.id, ())
                    if depth > 2 or not cs or not all(self.read_before(g, j, fields, d, depth + 1) for g, j in cs):
                        return False
                    continue
                for p in preds.get(b["id"], ()):
                    if p["id"] not in seen:
                        seen.add(p["id"])
                        st.append((p, len(p["el"]) - 1))
        return True

    def changed(self, cv, d, field, kind):
        R, an, P = self.R, self.an, self.P
        cls = field.rsplit("::", 1)[0]
        skip = self.skips(d["skip"], field) if d.get("skip") else None
        for f in P.fns.values():
            if f.d.get("impl") or (f.d.get("ctor") or f.d.get("dtor")) and f.cls == cls:
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] != "mem" or short(n["fd"]) != field:
                    continue
                c = self.changes(f, i, kind)
                if c is None:
                    continue
                key = "%s:%s:%s" % (cname(cv), last(field), key_fn(an, f.short, f))
                w = self.where_in_blocks(f, c)
                # the change reports that it changed nothing
                res = {v for v, ds in f.defs.items() if len(ds) == 1 and ds[0][0] == "decl" and ds[0][1] is not None and ds[0][1] >= 0 and c in under(f, ds[0][1]) and f.nodes[c]["k"] == "call" and last(short(f.nodes[c].get("n", ""))) == "erase"}

                def idle(fn, x, pol, f=f, res=res):
                    if skip and skip(fn, x, pol):
                        return True
                    if fn.id != f.id or not res:
                        return False
                    if x[0] == "v" and x[1] in res:
                        return not pol
                    return x[0] == "o" and x[1] == "==" and pol and ("k", "0") in x[2:4] and any(y[0] == "v" and y[1] in res for y in x[2:4])
                r = self.notified(f, w, cv, field, idle) if w else ["?"]
                if r is not None:
                    R.bad("silent:" + key, an.where(f, c), "%s changes without a notification of %s afterwards" % (field, cname(cv)), [an.where(f, c)] + r, f)
                elif not self.under_mutex(f, c, d["mutex"], cv):
                    R.bad("unlocked:" + key, an.where(f, c), "%s may change between a waiter's check and its wait: %s is not taken between the change and the notification" % (field, cname(d["mutex"])), [an.where(f, c)], f)
                else:
                    R.ok("change of %s in %s notifies %s" % (field, f.short, cname(cv)), f)

    def under_mutex(self, f, c, mutex, cv, depth=0):
        """the mutex is held at the change or at every notification after it"""
        h = self.an.L.held(f, c)
        if h is None or any(mutex_class(m) == mutex for m in h):
            return True
        ns = [(g, i) for g in self.P.fns.values() if g.cls == f.cls or g.id == f.id for i in g.live_nodes() if self.is_notify(g, i, cv)]
        here = [(g, i) for g, i in ns if g.id == f.id] or ns
        if here and all(any(mutex_class(m) == mutex for m in (self.an.L.held(g, i) or ())) for g, i in here):
            return True
        cs = self.P.callers.get(f.id, ())
        return bool(cs) and depth < 3 and all(self.under_mutex(g, j, mutex, cv, depth + 1) for g, j in cs)


def c19(an, R):
    Wakeups(an, R).run()
    return []

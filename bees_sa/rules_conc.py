"""C17 shared data is accessed under its lock, C18 locks are taken in one order."""
from .common import *
from .rules_dedupe import key_fn
from .locks import is_guard_type

# field or variable -> the mutex that protects it ("Class::field" or the
# variable's qualified name); "*" stands for every mutable field of the class
GUARDED = {
    "BeesContext::m_blacklist": "m_blacklist_mutex",
    "BeesContext::m_progress_str": "m_progress_mtx",
    "BeesContext::m_stop_requested": "m_stop_mutex",
    "BeesContext::m_stop_status": "m_stop_mutex",
    "BeesContext::m_fd_cache": "m_stop_mutex",
    "BeesCrawl::m_btof": "BeesCrawl::m_mutex",
    "BeesCrawl::m_next_extent_data": "BeesCrawl::m_mutex",
    "BeesCrawl::m_next_hold": "BeesCrawl::m_mutex",
    "BeesCrawl::m_deferred": "BeesCrawl::m_mutex",
    "BeesCrawl::m_finished": "BeesCrawl::m_mutex",
    "BeesHashTable::ExtentMetaData::m_missing": "m_mutex_ptr",
    "BeesHashTable::ExtentMetaData::m_dirty": "m_mutex_ptr",
    "BeesHashTable::Bucket::p_cells": "m_mutex_ptr",
    "BeesHashTable::Extent::p_buckets": "m_mutex_ptr",
    "BeesHashTable::m_dirty": "m_dirty_mutex",
    "BeesHashTable::m_stop_requested": "m_stop_mutex",
    "BeesHashTable::m_prefetch_running": "m_stop_mutex",
    "BeesNote::s_status": "s_mutex",
    "BeesRoots::m_root_crawl_map": "m_mutex",
    "BeesRoots::m_crawl_dirty": "m_mutex",
    "BeesRoots::m_crawl_clean": "m_mutex",
    "BeesRoots::m_tmpfiles": "m_tmpfiles_mutex",
    "BeesRoots::m_stop_requested": "m_stop_mutex",
    "BeesScanMode::m_scan_task": "m_scan_task_mutex",
    "BeesScanModeExtent::m_extent_size": "m_mutex",
    "BeesScanModeExtent::m_size_tiers": "m_mutex",
    "BeesScanModeIndependent::m_subvols": "m_mutex",
    "BeesScanModeLockstep::m_sorted": "m_mutex",
    "BeesScanModeRecent::m_sorted": "m_mutex",
    "BeesScanModeSequential::m_sorted": "m_mutex",
    "BeesStatTmpl::m_stats_map": "m_mutex",
    "Exclusion::m_owner": "m_mutex",
    "LRUCache::m_list": "m_mutex", "LRUCache::m_map": "m_mutex", "LRUCache::m_max_size": "m_mutex", "LRUCache::m_last": "m_mutex",
    "LRUCache::Value::key": "m_mutex", "LRUCache::Value::ret": "m_mutex", "LRUCache::Value::fp": "m_mutex", "LRUCache::Value::bp": "m_mutex",
    "LockSet::m_set": "m_mutex", "LockSet::m_max_size": "m_mutex",
    "MultiLocker::m_counters": "m_mutex",
    "NamedPtr::MapRep::m_map": "m_mutex",
    "Pool::PoolRep::m_list": "m_mutex", "Pool::PoolRep::m_checkin": "m_mutex",
    "ProgressTracker::ProgressTrackerState::m_begin": "m_mutex",
    "ProgressTracker::ProgressTrackerState::m_end": "m_mutex",
    "ProgressTracker::ProgressTrackerState::m_in_progress": "m_mutex",
    "RateEstimator::m_last_count": "m_mutex", "RateEstimator::m_last_rate": "m_mutex", "RateEstimator::m_last_decay": "m_mutex", "RateEstimator::m_timer": "m_mutex",
    "RateEstimator::m_decay": "m_mutex", "RateEstimator::m_num": "m_mutex", "RateEstimator::m_den": "m_mutex", "RateEstimator::m_last_update": "m_mutex",
    "RateLimiter::m_rate": "m_mutex", "RateLimiter::m_tokens": "m_mutex", "RateLimiter::m_timer": "m_mutex",
    "TaskMasterState::*": "TaskMasterState::m_mutex",
    "TaskState::m_is_running": "TaskState::m_mutex", "TaskState::m_run_again": "TaskState::m_mutex", "TaskState::m_run_now": "TaskState::m_mutex",
    "TaskState::m_idle": "TaskState::m_mutex", "TaskState::m_sort_queue": "TaskState::m_mutex", "TaskState::m_post_exec_queue": "TaskState::m_mutex",
    "BarrierState::m_tasks": "BarrierState::m_mutex",
    "ByteVector::m_ptr": "m_mutex", "ByteVector::m_size": "m_mutex",
}

# accessed without the lock on purpose
UNLOCKED = {
    ("TaskMasterState::m_load_tracking_thread", "*"): "set and joined by the functions that configure the task master",
}
# not worth a lock: a number printed in a diagnostic message
SCALAR = ("bool", "int", "unsigned int", "long", "unsigned long", "double", "float", "unsigned long long", "long long", "char")
SELF_SYNC = ("LRUCache", "Pool", "NamedPtr", "LockSet", "ProgressTracker", "RateLimiter", "RateEstimator", "MultiLocker", "Exclusion", "Barrier", "std::mutex", "std::condition_variable",
             "std::atomic", "std::recursive_mutex", "std::shared_mutex")
ADAPTERS = {"begin", "end", "find", "lower_bound", "upper_bound", "rbegin", "rend", "cbegin", "cend", "front", "back", "at", "data", "equal_range"}


class GuardedBy:
    def __init__(self, an, R):
        self.an = an
        self.P = an.P
        self.R = R
        P = self.P
        self.mut = {}            # field -> mutex name
        self.recs = {}
        for name, r in P.records_full.items():
            self.recs.setdefault(short(name), {}).update({f["name"]: f["t"] for f in r["fields"] if f.get("name")})
        self.mutexes = {c + "::" + f for c, fs in self.recs.items() for f, t in fs.items() if "mutex" in t}
        self.allmut = {m.rsplit("::", 1)[-1] for m in self.mutexes} | {v["var"] for v in ()}
        for k, m in GUARDED.items():
            c, f = k.rsplit("::", 1)
            if f == "*":
                for x, t in self.recs.get(c, {}).items():
                    if not self.selfsync(t) and not t.startswith("const "):
                        self.mut[c + "::" + x] = m
            else:
                self.mut[k] = m
        self.acc = self.accesses()

    @staticmethod
    def selfsync(t):
        s = strip_t(t)
        return s in SELF_SYNC or s.startswith("std::atomic") or s.startswith("std::mutex")

    def ftype(self, key):
        c, f = key.rsplit("::", 1)
        return self.recs.get(c, {}).get(f)

    def accesses(self):
        """field or static variable -> [(fn, node)]"""
        out = {}
        for f in self.P.fns.values():
            if f.d.get("impl"):
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] == "mem":
                    out.setdefault(short(n["fd"]), []).append((f, i))
                elif n["k"] == "ref" and n.get("vk") in ("g", "s"):
                    out.setdefault(("var", n["var"]), []).append((f, i))
        return out

    def lifetime(self, f, cls):
        return (f.d.get("ctor") or f.d.get("dtor")) and f.cls == cls

    def local_object(self, f, b, depth=0):
        """the object is a value of this very function, not yet or not shared"""
        while b and b[0] in ("f", "i") and depth < 8:
            b = b[1]
            depth += 1
        if b and (b[0] in ("tmp", "ctor") or b[0] == "c" and b[1] in ("std::make_shared", "std::make_unique")):
            return True
        if not b or b[0] != "v":
            return False
        ow = self.an.var_owner.get(b[1])
        if not ow or ow[0].short != f.short or ow[1] == "bind":
            return False
        t = ow[0].params[ow[2]]["t"] if ow[1] == "param" else ow[2].get("t", "")
        return bool(t) and not t.rstrip().endswith(("&", "*")) and strip_t(t) not in SMART

    def match(self, m, mname, cls, base):
        """mutex sym m is the one called mname that protects cls's field of base"""
        mc = mutex_class(m)
        if "::" in mname:
            if mc != mname:
                return False
        elif mc.rsplit("::", 1)[-1].split("@")[0] != mname:
            return False
        if m[0] == "f" and mc.rsplit("::", 1)[0] == cls and base is not None and m[0] == "f":
            return self.an.canon(m[1]) == self.an.canon(base)
        return True

    def held_ok(self, f, i, mname, cls, base, depth=0, seen=()):
        """the mutex is held at node i, here or by every caller"""
        h = self.an.L.held(f, i)
        if h is None:
            return True, []
        if any(self.match(m, mname, cls, base) for m in h):
            return True, []
        if depth > 4 or f.id in seen:
            return False, [self.an.where(f, i)]
        if base != ("this",) or f.is_lambda:
            return False, [self.an.where(f, i)]
        callers = list(self.P.callers.get(f.id, ()))
        if not callers and f.d.get("priv"):
            return True, []     # dead code
        if not callers or f.d.get("over"):
            return False, [self.an.where(f, i)]
        for g, j in callers:
            n = g.nodes[j]
            b = self.P.sym(g, n["o"]) if "o" in n else None
            if b == ("this",) and self.lifetime(g, cls) or b is not None and self.local_object(g, b):
                continue
            ok, p = self.held_ok(g, j, mname, cls, b, depth + 1, seen + (f.id,))
            if not ok:
                return False, p + [self.an.where(f, i)]
        return True, []

    def diagnostic(self, f, i, t):
        """reading a number into a log or status message"""
        return strip_t(t) in SCALAR and self.in_noise(f, i)

    def in_noise(self, f, i):
        if f.is_noise(i):
            return True
        o = self.P.lambda_owner.get(f.id) if f.is_lambda else None
        if o in self.P.fns:
            g = self.P.fns[o]
            return any(n and n["k"] == "lam" and f.id in n["f"] and g.is_noise(j) for j, n in enumerate(g.nodes))
        return False

    def run(self):
        R = self.R
        an = self.an
        P = self.P
        R.rule("guarded-by", "every access to a shared field happens while its mutex is held, in the function or by all its callers", 150)
        for key in sorted(k for k in self.acc if isinstance(k, str)):
            mname = self.mut.get(key)
            if not mname:
                continue
            t = self.ftype(key) or ""
            if strip_t(t) == "std::atomic" or t.startswith("std::atomic"):
                R.ok("%s is atomic" % key)
                continue
            cls = key.rsplit("::", 1)[0]
            for f, i in self.acc[key]:
                self.one(f, i, key, mname, cls, t)

    def one(self, f, i, key, mname, cls, t, what="accessed"):
        R, an, P = self.R, self.an, self.P
        n = f.nodes[i]
        if self.lifetime(f, cls) and P.sym(f, n["b"]) == ("this",):
            return
        base = P.sym(f, n["b"])
        if self.local_object(f, base) or self.diagnostic(f, i, t) or (key, "*") in UNLOCKED or (key, f.short) in UNLOCKED:
            return
        ok, path = self.held_ok(f, i, mname, cls, base)
        if ok:
            R.ok("%s in %s" % (key, f.short), f)
        else:
            R.bad("%s:%s" % (key, key_fn(an, f.short, f)), path[0], "%s is %s without %s" % (key, what, mname), path, f)


    # ------------------------------------------------------------ writes
    def written(self, f, i, depth=0):
        """node i (a variable or field) is modified here, or its address or a
        mutable reference to it is handed out"""
        p = f.parents.get(i)
        if p is None or p[0] < 0 or depth > 8:
            return False
        n = f.nodes[p[0]]
        role = p[1]
        k = n["k"]
        if k == "as":
            return role[0] == "L"
        if k == "un":
            if n["op"] in ("++", "--", "p++", "p--"):
                return True
            if n["op"] == "&":
                return not n.get("t", "").startswith("const ")
            return n["op"] in ("*", "__extension__") and self.written(f, p[0], depth + 1)
        if k in ("mem", "cast"):
            return self.written(f, p[0], depth + 1)
        if k == "idx":
            return role[0] == "ibase" and self.written(f, p[0], depth + 1)
        if k == "call" and role[0] == "obj":
            nm = last(short(n.get("n", "")))
            if n.get("cm") or "iterator" in short(n["n"]).rsplit("::", 1)[0] and nm not in ("operator*", "operator->", "operator[]"):
                return False
            if nm in ADAPTERS or nm in ("operator[]", "operator*", "operator->", "operator()", "get", "operator bool"):
                return nm in ("operator[]",) or self.written(f, p[0], depth + 1)
            return True
        if k in ("call", "ctor") and role[0] == "arg":
            pk = n.get("pk", "")
            j = role[1]
            if isinstance(pk, str) and j < len(pk):
                return pk[j] in ("r", "m")
        if k == "decl":
            v = n["d"][role[1]]
            t = v.get("t", "")
            if t.startswith("const ") and t.endswith(("&", "*")) or not (t.endswith(("&", "*")) or "iterator" in t.lower()):
                return False
            return any(f.nodes[j] and f.nodes[j]["k"] == "ref" and f.nodes[j].get("var") == v["var"] and self.written(f, j, depth + 1) for j in range(len(f.nodes)))
        return False

    @property
    def concurrent(self):
        """functions that may run in a worker, service or task thread"""
        if getattr(self, "_conc", None) is None:
            P = self.P
            sync = set(self.an.L.lam_sync_sites)
            work = [f.id for f in P.fns.values() if f.is_lambda and f.id not in sync]
            for f in P.fns.values():
                for i in f.live_nodes():
                    n = f.nodes[i]
                    if n["k"] == "ref" and n.get("vk") == "f" and f.short.split("::")[0] != "bees_main":
                        p = f.parents.get(i)
                        if p and p[1][0] != "callee" and n.get("f") in P.fns:
                            work.append(n["f"])
            seen = set(work)

            def add(x):
                if x in P.fns and x not in seen:
                    seen.add(x)
                    work.append(x)
            while work:
                f = P.fns[work.pop()]
                for i in f.live_nodes():
                    n = f.nodes[i]
                    if n["k"] in ("call", "ctor"):
                        for t in P.targets(n):
                            add(t.id)
                    elif n["k"] == "lam":
                        for l in n["f"]:
                            add(l)
                for b in f.blocks:
                    for e in b["el"]:
                        if isinstance(e, dict) and e["k"] == "dtor" and e.get("f"):
                            for t in P.overriders(e["f"]):
                                add(t.id)
            self._conc = seen
        return self._conc

    def static_init(self, f, i, depth=0):
        """node i runs only inside the (thread-safe) initialiser of a static"""
        j = i
        for _ in range(40):
            p = f.parents.get(j)
            if p is None or p[0] < 0:
                break
            n = f.nodes[p[0]]
            if n["k"] == "decl" and p[1][0] == "init" and n["d"][p[1][1]].get("st"):
                return True
            j = p[0]
        if depth > 4:
            return False
        if f.is_lambda:
            o = self.P.lambda_owner.get(f.id)
            g = self.P.fns.get(o)
            return bool(g) and f.id in self.an.L.lam_sync_sites and all(self.static_init(h, k, depth + 1) for h, k in self.an.L.lam_sync_sites[f.id])
        cs = list(self.P.callers.get(f.id, ()))
        return bool(cs) and all(self.static_init(g, k, depth + 1) for g, k in cs)

    def statics(self):
        R, an, P = self.R, self.an, self.P
        R.rule("statics", "every variable of static storage that threads modify is atomic, thread local, or always accessed under one lock", 4)
        for key, acc in sorted((k[1], v) for k, v in self.acc.items() if not isinstance(k, str)):
            f, i = acc[0]
            n = f.nodes[i]
            decl_t = self.static_type(key, n)
            if n.get("tl") or key.startswith("std::") or "mutex" in decl_t or decl_t.startswith("std::atomic") or self.owns_mutex(decl_t):
                continue
            name = short(key).split("@")[0]
            if key in self.mut or short(key) in self.mut:
                want = self.mut.get(key) or self.mut.get(short(key))
            else:
                want = None
            w = [(g, j) for g, j in acc if g.id in self.concurrent and self.written(g, j) and not self.static_init(g, j)]
            if not w and not want:
                continue
            if key in SINGLE:
                R.ok("%s: %s" % (name, SINGLE[key]))
                continue
            common = None
            bad = None
            for g, j in acc:
                if self.static_init(g, j) or self.diagnostic(g, j, decl_t) or g.id not in self.concurrent:
                    continue
                h = {mutex_class(m) for m in (an.L.held(g, j) or ())}
                nc = h if common is None else common & h
                if not nc:
                    bad = bad or (g, j)
                common = nc
            if bad is not None and not want or want and (common is None or not any(m.rsplit("::", 1)[-1] == want for m in common)):
                g, j = bad or w[0] if w else acc[0]
                R.bad("static:%s:%s" % (name, key_fn(an, g.short, g)), an.where(g, j), "%s is shared between threads, modified, and not always accessed under one lock" % name, [an.where(a, b) for a, b in w[:3]], g)
            elif common:
                R.ok("%s under %s" % (name, sorted(common)), acc[0][0])

    # ------------------------------------------------------------ escapes
    def root_field(self, f, i, depth=0):
        """(guarded field, base) a reference or iterator (node i) points into"""
        while i is not None and i >= 0 and depth < 30:
            depth += 1
            n = f.nodes[i]
            k = n["k"]
            if k == "mem":
                key = short(n["fd"])
                if key in self.mut:
                    return None if strip_t(self.ftype(key) or "") in SMART else (key, self.P.sym(f, n["b"]))
                if strip_t(n.get("t", "")) in SMART:
                    return None
                i = n["b"]
            elif k in ("cast", "un"):
                i = n["s"]
            elif k == "idx":
                i = n["b"]
            elif k == "ctor" and (n.get("cp") or n.get("mv")) and n["a"]:
                i = n["a"][0]
            elif k == "call" and "o" in n and (last(short(n["n"])) in ADAPTERS or last(short(n["n"])) in ("operator[]", "operator*", "operator->")):
                if strip_t(f.nodes[n["o"]].get("t", "")) in SMART:
                    return None
                i = n["o"]
            elif k == "ref":
                ow = self.an.var_owner.get(n.get("var"))
                if not ow or ow[1] != "local" or ow[0].id != f.id:
                    return None
                t = ow[2].get("t", "")
                if not (t.endswith(("&", "*")) or "iterator" in t.lower()):
                    return None
                i = ow[2].get("init")
            else:
                return None
        return None

    def escapes(self):
        R, an, P = self.R, self.an, self.P
        R.rule("borrowed", "a local reference or iterator into shared data is used only while the lock is held", 40)
        for f in P.fns.values():
            if f.d.get("impl"):
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] != "decl":
                    continue
                for v in n["d"]:
                    t = v.get("t", "")
                    if not (t.endswith(("&", "*")) or "iterator" in t.lower()) or v.get("init") is None or v["init"] < 0 or strip_t(t) == "std::atomic":
                        continue
                    r = self.root_field(f, v["init"])
                    if not r:
                        continue
                    key, base = r
                    cls = key.rsplit("::", 1)[0]
                    if self.lifetime(f, cls) or self.local_object(f, base) or (self.ftype(key) or "").startswith("std::atomic"):
                        continue
                    bad = None
                    for g in [f] + P.lambdas_of(f.id):
                        for j in g.live_nodes():
                            m = g.nodes[j]
                            if m["k"] != "ref" or m.get("var") != v["var"] or self.in_noise(g, j):
                                continue
                            ok, path = self.held_ok(g, j, self.mut[key], cls, base)
                            if not ok:
                                bad = (g, j, path)
                    if bad:
                        g, j, path = bad
                        R.bad("borrowed:%s:%s" % (key, key_fn(an, f.short, f)), path[0], "%s points into %s and is used without %s" % (v["name"], key, self.mut[key]), path, f)
                    else:
                        R.ok("%s into %s in %s" % (v["name"], key, f.short), f)

    def static_type(self, key, n):
        g = self.P.globals.get(key)
        if g and g.get("t"):
            return g["t"]
        ow = self.an.var_owner.get(key)
        if ow and ow[1] == "local":
            return ow[2].get("t", "")
        return n.get("t", "")

    def owns_mutex(self, t):
        s = strip_t(t)
        return s in SELF_SYNC or any("mutex" in x for x in self.recs.get(s, {}).values()) or s in SMART and False or s in ("BeesStats", "ChatterBox")


# only ever touched by one thread at a time
SINGLE = {}


def c17(an, R):
    g = GuardedBy(an, R)
    g.run()
    g.statics()
    g.escapes()
    return []


# --------------------------------------------------------------------- C18
# objects that live as long as the daemon does
SINGLETONS = ("BeesContext", "BeesRoots", "BeesHashTable", "BeesThread", "TaskMasterState", "BeesCrawl")
# containers that are empty by the time their object is destroyed
EMPTY_AT_END = {"TaskConsumer::m_local_queue": "the thread hands its tasks on before it ends",
                "TaskConsumer::m_current_task": "swapped out after each task"}
STD_DESTROY = {"clear", "erase", "pop_front", "pop_back", "reset", "operator=", "resize", "assign", "swap", "~"}


class LockGraph:
    """which lock may be taken while which other is held"""

    def __init__(self, an):
        self.an = an
        self.P = an.P
        self.L = an.L
        self._dc = {}
        self.recs = {}
        for name, r in self.P.records_full.items():
            fs = [f["t"] for f in r["fields"] if short(name) + "::" + (f.get("name") or "") not in EMPTY_AT_END]
            self.recs.setdefault(name, fs)
            self.recs.setdefault(short(name), fs)
        self.dtors = {}
        for f in self.P.fns.values():
            if f.d.get("dtor"):
                self.dtors.setdefault(f.cls, []).append(f)
                self.dtors.setdefault(short(f.cls), []).append(f)
        self.sync_graph()
        self.closure()
        self.build()

    # -- destructors a value of a type may run
    def destroys(self, t, seen=None):
        t = t.replace("const ", "").strip()
        if t.endswith(("&", "*")) or "weak_ptr" in strip_t(t):
            return frozenset()
        if t in self._dc:
            return self._dc[t]
        top = seen is None
        seen = seen or set()
        if t in seen:
            return frozenset()
        seen.add(t)
        out = set()
        s = strip_t(t)
        for f in self.dtors.get(s, ()):
            out.add(f.id)
            for o in self.P.overriders(f.id):
                out.add(o.id)
        if s.startswith("std::") or s in SMART:
            for a in targs(t):
                if s in SMART and self.singleton(a):
                    continue
                out |= self.destroys(a, seen)
        else:
            for ft in self.recs.get(t, self.recs.get(s, ())):
                out |= self.destroys(ft, seen)
        out = frozenset(out)
        if top:
            self._dc[t] = out
        return out

    def singleton(self, t):
        s = strip_t(t)
        return s in SINGLETONS or s.startswith("BeesScanMode")

    def noise_lambdas(self, f, n, i):
        return list(n["f"]) if n["k"] == "lam" and f.is_noise(i) else []

    def keeps_alive(self, f, n):
        """the elements this call removes are still owned by somebody else"""
        nm = last(short(n["n"]))
        args = [f.nd(a) for a in n["a"]]
        on = f.nodes[n["o"]]
        if nm == "operator=" or nm == "swap":
            # replacing a pointer: only clearing it counts
            if strip_t(on.get("t", "")) not in SMART:
                return nm == "swap"
            return nm == "swap" or not (args and (args[0]["k"] == "ctor" and not args[0]["a"] or "nullptr" in args[0].get("t", "")))
        box = self.P.sym(f, n["o"])
        if nm in ("pop_front", "pop_back", "erase"):
            for j in f.live_nodes():
                m = f.nodes[j]
                if m["k"] == "call" and "o" in m and last(short(m.get("n", ""))) in ("front", "back", "begin", "rbegin") and self.P.sym(f, m["o"]) == box:
                    k = j
                    while f.parents.get(k) and f.parents[k][0] >= 0:
                        k = f.parents[k][0]
                        if f.nodes[k]["k"] in ("as", "decl") or f.nodes[k]["k"] == "call" and f.nodes[k].get("op") == "=":
                            return True     # a copy was taken first
        if nm == "erase" and args and any(f.nodes[j]["k"] == "call" and last(short(f.nodes[j].get("n", ""))) == "shared_from_this" for j in under(f, n["a"][0])):
            return True
        return False

    def may_own(self, f, var):
        """a local smart pointer or container may hold the last reference to
        something when it is destroyed: it was filled by taking over what
        another variable owned, or by locking a weak pointer"""
        P = self.P
        ow = self.an.var_owner.get(var)
        if not ow or ow[1] != "local":
            return False
        took = False
        swaps = 0
        init = ow[2].get("init")
        if init is not None and init >= 0:
            for j in under(f, init):
                n = f.nodes[j]
                if n["k"] == "call" and short(n.get("n", "")) in ("std::weak_ptr::lock", "std::move"):
                    took = True
        for g in [f] + P.lambdas_of(f.id):
            for j in g.live_nodes():
                n = g.nodes[j]
                if n["k"] == "ret" and n.get("s", -1) is not None and n.get("s", -1) >= 0:
                    if any(g.nodes[k] and g.nodes[k]["k"] == "ref" and g.nodes[k].get("var") == var for k in under(g, n["s"])):
                        return False        # handed to the caller, who owns it
                if n["k"] != "call":
                    continue
                nm = last(short(n.get("n", "")))
                on = g.nd(n["o"]) if "o" in n else None
                mine = on and on["k"] == "ref" and on.get("var") == var
                if mine and nm in ("reset", "clear") and not n["a"]:
                    return False
                if mine and nm in ("splice", "merge"):
                    took = True
                args = [g.nd(a) for a in n["a"]]
                if nm == "swap" and (mine or any(a and a["k"] == "ref" and a.get("var") == var for a in args)):
                    swaps += 1
                if mine and nm == "operator=" and args and args[0]["k"] == "call" and short(args[0].get("n", "")) in ("std::move", "std::weak_ptr::lock"):
                    took = True
        return took or swaps % 2 == 1       # swapped in and out again: empty

    def sync_graph(self):
        """fn id -> [(node, callee id)] of calls completed before the node is"""
        P = self.P
        self.calls = {}
        noise_fns = {}
        for f in P.fns.values():
            if f.id not in self.an.reach:
                continue
            out = []
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] in ("call", "ctor"):
                    for t in P.targets(n):
                        out.append((i, t.id))
                    for l in self.L.sync_lambda_args(f, n):
                        out.append((i, l))
                    for t in P.targets(n):
                        for j, a in enumerate(n.get("a", ())):
                            if (t.id, j) in self.L.sync_param:
                                o = P.sym(f, a)
                                if o[0] in ("f", "g"):
                                    out += [(i, s[1]) for s in self.an.origins(f, a) if s[0] == "lam"]
                    nm = short(n.get("n", ""))
                    if n["k"] == "call" and nm == "std::function::operator()" and "o" in n:
                        o = P.sym(f, n["o"])
                        if o[0] == "v" and self.an.var_owner.get(o[1], (0, 0))[1] == "param":
                            continue
                        for s in self.an.origins(f, n["o"]):
                            if s[0] == "lam":
                                out.append((i, s[1]))
                    if n["k"] == "call" and "o" in n and nm.startswith("std::") and last(nm) in STD_DESTROY:
                        ot = f.nodes[n["o"]].get("t", "")
                        if strip_t(ot).startswith("std::") and not self.keeps_alive(f, n):
                            for d in self.destroys(ot):
                                out.append((i, d))
                elif n["k"] == "lam" and f.is_noise(i):
                    for l in n["f"]:
                        out.append((i, l))
            for b in f.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "dtor":
                        ds = {t.id for t in P.overriders(e["f"])} | {e["f"]} if e.get("f") in P.fns else set()
                        if "var" in e and self.may_own(f, e["var"]) or "fd" in e and short(e["fd"]) not in EMPTY_AT_END:
                            ds |= self.destroys(e.get("t", ""))
                        for d in ds:
                            if d in P.fns:
                                out.append((("d", e.get("var") or e.get("fd") or e.get("tmp"), e.get("l")), d))
            self.calls[f.id] = out

    def closure(self):
        P = self.P
        self.may = {fid: {} for fid in self.calls}
        for fid in self.calls:
            for l, m, h in self.L.acq.get(fid, ()):
                self.may[fid].setdefault((mutex_class(m)), (l, None))
        changed = True
        while changed:
            changed = False
            for fid, cs in self.calls.items():
                mine = self.may[fid]
                for i, c in cs:
                    for x in self.may.get(c, ()):
                        if x not in mine:
                            mine[x] = (i, c)
                            changed = True

    def held_at(self, f, i):
        if isinstance(i, tuple):
            return {m for m, _ in self.L.dtor_at.get((f.id, i[1]), ())}
        return self.L.held(f, i) or set()

    def build(self):
        """(held class, taken class) -> list of (fn, node, callee id or None, held sym)"""
        P = self.P
        self.edges = {}
        for fid in self.calls:
            f = P.fns[fid]
            for l, m, h in self.L.acq.get(fid, ()):
                for hm, _ in h:
                    self.edges.setdefault((mutex_class(hm), mutex_class(m)), []).append((f, ("l", None, l), None, hm, m))
            for i, c in self.calls[fid]:
                mm = self.may.get(c)
                if not mm:
                    continue
                for hm in self.held_at(f, i):
                    for x in mm:
                        self.edges.setdefault((mutex_class(hm), x), []).append((f, i, c, hm, None))

    def path(self, c, lock):
        out = []
        for _ in range(30):
            if c is None or c not in self.may:
                break
            f = self.P.fns[c]
            i, nx = self.may[c].get(lock, (None, None))
            out.append(self.at(f, i))
            c = nx
        return out

    def at(self, f, i):
        if isinstance(i, tuple):
            return "%s:%s (%s)" % (f.file, i[2], f.short)
        if isinstance(i, int) and 0 <= i < len(f.nodes) and f.nodes[i]:
            return self.an.where(f, i)
        return "%s:%s (%s)" % (f.file, i, f.short)


def under(f, i):
    """node i and everything below it"""
    out, st = [], [i]
    while st:
        j = st.pop()
        n = f.nd(j)
        if n:
            out.append(j)
            st += [c[0] for c in f.children(n)]
    return out


def targs(t):
    """top-level template arguments"""
    a = t.find("<")
    if a < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[a + 1:t.rfind(">")]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


WAITS = ("std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable::wait_until")
SLEEPS = ("nanosleep", "sleep", "usleep", "std::this_thread::sleep_for", "std::this_thread::sleep_until", "std::thread::join", "poll", "select", "pause", "sigwaitinfo", "clock_nanosleep")


class LockOrder:
    def __init__(self, an, R):
        self.an, self.R, self.P = an, R, an.P
        self.g = LockGraph(an)

    # ------------------------------------------------------------ instances
    def inst(self, fid, cls, depth=0, seen=()):
        """mutexes of this class that fn may take, in its own terms"""
        P = self.P
        f = P.fns[fid]
        out = set()
        for l, m, h in self.an.L.acq.get(fid, ()):
            if mutex_class(m) == cls:
                out.add(m if not (f.d.get("ctor") and m[:2] == ("f", ("this",))) else ("fresh",))
        if depth > 5 or fid in seen:
            return out
        for i, c in self.g.calls.get(fid, ()):
            if cls in self.g.may.get(c, ()):
                out |= self.subst_inst(f, i, c, cls, depth + 1, seen + (fid,))
        return out

    def subst_inst(self, f, i, c, cls, depth=0, seen=()):
        P = self.P
        t = P.fns[c]
        ms = self.inst(c, cls, depth, seen)
        if isinstance(i, tuple) or f.nodes[i]["k"] not in ("call", "ctor"):
            # a destructor, or a lambda run here
            return {m if m[0] == "fresh" or t.is_lambda else ("?",) for m in ms}
        n = f.nodes[i]
        if t.is_lambda:
            return {m for m in ms}
        env = [(("v", p["var"]), P.sym(f, a)) for p, a in zip(t.params, n.get("a", ()))]
        if "o" in n:
            env.append((("this",), P.sym(f, n["o"])))
        elif n["k"] == "ctor":
            env.append((("this",), ("fresh",)))
        out = set()
        for m in ms:
            for a, b in env:
                m = subst(m, a, b)
            out.add(m)
        return out

    def private(self, f, m, depth=0):
        """the object that owns mutex m is not visible to other threads"""
        if has_term(m, ("fresh",)):
            return True
        b = m
        while b and b[0] in ("f", "i"):
            b = b[1]
        if b == ("this",):
            if f.d.get("ctor"):
                return True
            if depth < 3 and not f.is_lambda:
                cs = [(g, j) for g, j in self.P.callers.get(f.id, ()) if g.id in self.an.reach]
                return bool(cs) and all("o" in g.nodes[j] and self.private(g, subst(m, ("this",), self.P.sym(g, g.nodes[j]["o"])), depth + 1) for g, j in cs)
            return False
        if b and b[0] in ("tmp", "ctor", "c"):
            return b[0] != "c" or b[1] in ("std::make_shared", "std::make_unique")
        if not b or b[0] != "v":
            return False
        ow = self.an.var_owner.get(b[1])
        if not ow or ow[1] == "bind":
            return False
        if ow[1] == "param":
            t = ow[0].params[ow[2]]["t"]
            if not t.rstrip().endswith(("&", "*")):
                return strip_t(t) not in SMART
            if depth >= 3 or ow[0].is_lambda:
                return False
            cs = [(g, j) for g, j in self.P.callers.get(ow[0].id, ()) if g.id in self.an.reach]
            return bool(cs) and all(ow[2] < len(g.nodes[j]["a"]) and self.private(g, subst(m, b, self.P.sym(g, g.nodes[j]["a"][ow[2]])), depth + 1) for g, j in cs)
        if ow[2].get("st"):
            return False
        t = ow[2].get("t", "")
        return bool(t) and not t.rstrip().endswith(("&", "*")) and strip_t(t) not in SMART

    # ------------------------------------------------------------ rules
    def run(self):
        R, g, P, an = self.R, self.g, self.P, self.an
        R.rule("lock-order", "no cycle of locks taken while others are held", 50)
        adj = {}
        for (a, b), v in g.edges.items():
            if a != b:
                adj.setdefault(a, set()).add(b)
        comp = sccs(adj)
        for (a, b), v in sorted(g.edges.items(), key=lambda x: x[0]):
            if a == b:
                continue
            f, i, c, hm, m = v[0]
            if comp[a] != comp[b]:
                R.ok("%s before %s in %s (%d places)" % (cname(a), cname(b), f.short, len(v)), f)
                continue
            back = cycle(adj, b, a, comp)
            path = [g.at(f, i) + ": holds %s, takes %s" % (cname(a), cname(b))] + (g.path(c, b) if c else [])
            for x, y in zip(back, back[1:]):
                f2, i2, c2 = g.edges[(x, y)][0][:3]
                path += [g.at(f2, i2) + ": holds %s, takes %s" % (cname(x), cname(y))] + (g.path(c2, y) if c2 else [])
            R.bad("order:%s:%s" % (cname(a), cname(b)), g.at(f, i), "%s is taken while %s is held, and elsewhere the other way round" % (cname(b), cname(a)), path, f)
        R.rule("one-at-a-time", "no thread takes a mutex it holds, nor two mutexes of a kind one after the other", 0)
        done = set()
        for (a, b), v in sorted(g.edges.items(), key=lambda x: x[0]):
            if a != b or a == "process-lock":
                continue
            for f, i, c, hm, m in v:
                ms = {m} if c is None else self.subst_inst(f, i, c, b)
                for m in ms:
                    if (f.id, hm, m) in done:
                        continue
                    done.add((f.id, hm, m))
                    if m[0] != "?" and an.canon(m) != an.canon(hm) and (self.private(f, m) or self.private(f, hm)):
                        R.ok("%s of two objects in %s, one of them not shared" % (cname(a), f.short), f)
                        continue
                    same = an.canon(m) == an.canon(hm)
                    R.bad("nested:%s:%s" % (cname(a), key_fn(an, f.short, f)), g.at(f, i), "%s is taken while %s" % (cname(a), "it is already held" if same else "that of another object of the class is held"),
                          [g.at(f, i)] + (g.path(c, b) if c else []), f)
        R.rule("process-lock", "a thread inside one kind of process-wide exclusion does not wait for another kind", 2)
        for f in P.fns.values():
            if f.id not in an.reach:
                continue
            for l, m, h in an.L.acq.get(f.id, ()):
                if m[0] == "process-lock":
                    R.ok("process lock %s in %s" % (m[1][1:], f.short), f)
        for f, i, c, hm, m in g.edges.get(("process-lock", "process-lock"), ()):
            kinds = {m} if c is None else self.inst(c, "process-lock")
            for k in kinds:
                if k != hm:
                    R.bad("process-lock:%s:%s" % (key_fn(an, f.short, f), k[1][-1]), g.at(f, i), "waits for process lock %s while holding %s" % (k[1][1:], hm[1][1:]), [g.at(f, i)] + (g.path(c, "process-lock") if c else []), f)
        R.rule("blocked-with-lock", "a thread that waits, sleeps or joins a thread holds no lock but the one the wait releases", 15)
        self.sleepers = self.blocking()
        for f in P.fns.values():
            if f.id not in an.reach or f.d.get("impl"):
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] != "call":
                    continue
                nm = short(n.get("n", ""))
                h = an.L.held(f, i)
                if h is None:
                    continue
                h = {m for m in h if m[0] != "process-lock"}
                if nm in WAITS:
                    mine = self.waited(f, n)
                    other = [m for m in h if m not in mine]
                    why = "waits for a condition"
                elif nm in SLEEPS:
                    other = list(h)
                    why = "blocks in %s" % nm
                else:
                    ts = [t for t in P.targets(n) if t.id in self.sleepers]
                    if not ts or not h:
                        continue
                    other = list(h)
                    why = "calls %s, which %s" % (ts[0].short, self.sleepers[ts[0].id][1])
                if other:
                    R.bad("blocked:%s:%s" % (key_fn(an, f.short, f), sorted(cname(mutex_class(m)) for m in other)[0]), an.where(f, i), "%s while holding %s" % (why, sorted(cname(mutex_class(m)) for m in other)), [an.where(f, i)], f)
                else:
                    R.ok("%s in %s" % (nm, f.short), f)

    def waited(self, f, n):
        gs = self.an.L.guards_of(f)
        a = f.nd(n["a"][0]) if n["a"] else None
        while a and a["k"] == "call" and a["a"]:
            a = f.nd(a["a"][0])
        if a and a["k"] == "ref" and a["var"] in gs:
            return set(gs[a["var"]][0])
        # a guard passed in as a reference: the caller's lock
        return set(self.an.L.held(f, [i for i in f.live_nodes() if f.nodes[i] is n][0]) or ()) if a and a["k"] == "ref" else set()

    def blocking(self):
        """fn id -> (node, why) for functions that always or sometimes sleep or
        join a thread themselves or through repository calls"""
        P, an = self.P, self.an
        out = {}
        for f in P.fns.values():
            if f.id not in an.reach:
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] == "call" and short(n.get("n", "")) in SLEEPS:
                    out[f.id] = (i, "blocks in %s" % short(n["n"]))
        for f in list(P.fns.values()):
            if f.short in ("RateEstimator::wait_until", "RateEstimator::wait_for"):
                out.setdefault(f.id, (0, "waits for a count"))
        changed = True
        while changed:
            changed = False
            for fid, cs in self.g.calls.items():
                if fid in out:
                    continue
                for i, c in cs:
                    if c in out:
                        out[fid] = (i, out[c][1] if len(out[c][1]) > 60 else "calls %s, which %s" % (P.fns[c].short, out[c][1]))
                        changed = True
                        break
        return out


def subst(s, a, b):
    if s == a:
        return b
    if isinstance(s, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in s)
    return s


def has_term(s, t):
    return s == t or isinstance(s, tuple) and any(has_term(x, t) for x in s if isinstance(x, tuple))


def cname(c):
    return short(c).split("@")[0].split("#")[0]


def sccs(adj):
    nodes = set(adj) | {y for v in adj.values() for y in v}

    def reach(x):
        seen, st = {x}, [x]
        while st:
            for y in adj.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    r = {x: reach(x) for x in nodes}
    return {x: min(y for y in nodes if y in r[x] and x in r[y]) for x in nodes}


def cycle(adj, a, b, comp):
    """shortest path a .. b inside their component"""
    prev, q = {a: None}, [a]
    for x in q:
        if x == b:
            break
        for y in sorted(adj.get(x, ())):
            if y not in prev and comp[y] == comp[a]:
                prev[y] = x
                q.append(y)
    out = [b]
    while prev.get(out[0]) is not None:
        out.insert(0, prev[out[0]])
    return out


def c18(an, R):
    LockOrder(an, R).run()
    return []

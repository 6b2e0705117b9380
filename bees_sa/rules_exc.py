"""C22 failures end neither the daemon nor its threads."""
from .common import *
from .rules_crawl import lam_nodes

STDB = {"std::system_error": "std::runtime_error", "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
        "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
        "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
        "std::underflow_error": "std::runtime_error", "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
        "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::bad_weak_ptr": "std::exception", "std::bad_function_call": "std::exception",
        "std::bad_typeid": "std::exception", "std::bad_exception": "std::exception", "std::future_error": "std::logic_error"}
# calls that do not fail: their only errors are bad arguments, no memory, or
# signals, which the daemon blocks
CANNOT = ("uname", "vasprintf", "asprintf", "strftime", "localtime_r", "gmtime_r", "gettimeofday", "clock_gettime", "nanosleep", "pthread_setname_np", "pthread_getname_np", "prctl", "time", "gettid", "syscall")
ANYF = "a function passed in"
STDT = {"at": "std::out_of_range", "stoul": "std::invalid_argument", "stoull": "std::invalid_argument", "stoi": "std::invalid_argument", "stol": "std::invalid_argument", "stod": "std::invalid_argument"}


def subterms_lam(s, lid):
    return any(t and t[0] == "lam" and len(t) > 1 and t[1] == lid for t in subterms(s))


class Esc:
    """which throw sites can leave which functions"""

    def __init__(self, an):
        self.an, self.P = an, an.P
        self.esc = {}       # fn id -> {site: (callee id, node)}
        self.rethrows = {}
        self._pass = {}
        self.handlers = {}
        self._stored = {}
        self.solve()

    # ---- types
    def bases(self, t):
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in STDB:
                work.append(STDB[x])
            for r in (self.P.records.get(x), self.P.records.get(last(x))):
                if r:
                    work += [strip_t(b if isinstance(b, str) else b.get("n", b.get("t", ""))) for b in r.get("bases", ())]
        return seen

    def is_exc(self, t):
        return t == "rethrow" or "std::exception" in self.bases(t)

    def caught(self, f, ty, t):
        """an exception of type t thrown in try `ty` of f does not leave f"""
        while ty is not None and ty >= 0:
            tr = f.tries[ty]
            for k, h in enumerate(tr["h"]):
                ht = strip_t(h["t"]) if h["t"] else ""
                if ht == "" or (ht in self.bases(t) if t != ANYF else ht == "std::exception"):
                    if not self.again(f, ty, k):
                        return True
                    break       # handled and thrown on
            ty = tr["parent"]
        return False

    def again(self, f, ty, k):
        """handler k of try ty may throw the exception on"""
        key = (f.id, ty, k)
        if key not in self.rethrows:
            r = False
            seen, work = set(), [f.tries[ty]["h"][k]["b"]]
            while work and not r:
                b = work.pop()
                if b is None or b in seen or b not in f.bmap:
                    continue
                seen.add(b)
                for e in f.bmap[b]["el"]:
                    if isinstance(e, int) and f.nodes[e]["k"] == "throw" and not f.nd(f.nodes[e].get("s", -1)):
                        r = True
                work += [x for x in f.bmap[b]["su"] if isinstance(x, int)]
            self.rethrows[key] = r
        return self.rethrows[key]

    # ---- functions passed as arguments
    def stored(self, f, n):
        """lambdas a member function object may hold: those given to the
        constructors of its class, or to members that assign it"""
        s = self.P.sym(f, n.get("o", n.get("ind")))
        if s[0] != "f" or "::" not in s[2]:
            return None
        cls = s[2].split("::")[0]
        if cls not in self._stored:
            out = set()
            for lid, (g, ln) in lam_nodes(self.an).items():
                for i, m in g.calls():
                    c = short(m.get("n", ""))
                    t = strip_t(m.get("t", "")) if m["k"] == "ctor" or "make_" in c else ""
                    if c.split("::")[0] == cls or t and re.search(r"\b%s\b" % cls, t):
                        if any(subterms_lam(self.P.sym(g, a), lid) for a in m.get("a", ())):
                            out.add(lid)
            self._stored[cls] = out
        na = len(n.get("a", ()))
        return [l for l in self._stored[cls] if l in self.P.fns and len(self.P.fns[l].params) == na]

    def passes(self, g, j, t, depth=0):
        """an exception of the function passed as parameter j of g leaves g"""
        key = (g.id, j, t)
        if key in self._pass:
            return self._pass[key]
        self._pass[key] = False
        if j >= len(g.params) or depth > 6:
            return False
        var = g.params[j]["var"]
        r = self.param_leaves(g, var, t, depth)
        self._pass[key] = r
        return r

    def param_leaves(self, g, var, t, depth):
        for i, n in g.calls():
            o = n.get("o", n.get("ind")) if n["k"] == "call" else None
            on = g.nd(o) if o is not None else None
            while on is not None and on["k"] in ("cast", "un") and "s" in on:
                on = g.nd(on["s"])
            if on is not None and on["k"] == "ref" and on["var"] == var:
                if not self.caught(g, n.get("ty"), t):
                    return True
            for q, a in enumerate(n.get("a", ())):
                s = self.P.sym(g, a, None, 0, False)
                if s == ("v", var):
                    for h in self.P.targets(n):
                        if h.id != g.id and self.passes(h, q, t, depth + 1) and not self.caught(g, n.get("ty"), t):
                            return True
                elif s[0] == "lam" and s[1] in self.P.fns:
                    l = self.P.fns[s[1]]
                    if self.param_leaves(l, var, t, depth + 1):
                        for h in self.P.targets(n):
                            if self.passes(h, q, t, depth + 1) and not self.caught(g, n.get("ty"), t):
                                return True
        return False

    # ---- sites
    def impossible(self, f, i):
        """the failure thrown here is that of a call that cannot fail"""
        if f.short in CANNOT:
            return True
        return False

    def die_cannot(self, f, n):
        """the call n of a die_if function checks a call that cannot fail"""
        for a in n.get("a", ()):
            for x in subterms(self.P.sym(f, a)):
                if x and x[0] == "c" and len(x) == 4 and last(x[1]) in CANNOT:
                    return True
        return False

    def sites(self, f):
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] == "throw":
                s = f.nd(n.get("s", -1))
                t = "rethrow" if s is None else strip_t(s.get("t", ""))
                if t != "rethrow" and not (t == "std::system_error" and self.impossible(f, i)):
                    yield i, t, n.get("ty")
            elif n["k"] == "call":
                nm = short(n.get("n", ""))
                if nm == "std::function::operator()" or "ind" in n:
                    o = f.nd(n.get("o", n.get("ind")))
                    if "o" in n and self.stored(f, n) is not None:
                        if self.P.sym(f, n["o"])[2].startswith("TaskState::"):
                            yield i, ANYF, n.get("ty")
                        continue
                    if o is not None and o["k"] == "ref" and (self.an.var_owner.get(o["var"]) or (f, ""))[1] == "param" and self.an.var_owner[o["var"]][0] is not f:
                        yield i, ANYF, n.get("ty")
                elif nm.startswith("std::") and last(nm) in STDT:
                    yield i, STDT[last(nm)], n.get("ty")

    def leaving(self, f, i, n):
        """(site, origin) an exception can come out of node i of f with"""
        out = {}
        P = self.P
        if n["k"] not in ("call", "ctor"):
            return out
        ts = P.targets(n)
        for g in ts:
            if g.d.get("dtor") and n["k"] == "ctor":
                continue
            if last(g.short).startswith("die_if_") and self.die_cannot(f, n):
                continue
            for s in self.esc.get(g.id, ()):
                out[s] = g.id
        # functions handed over and run before the call returns
        for j, a in enumerate(n.get("a", ())):
            s = P.sym(f, a)
            if s[0] == "lam" and s[1] in P.fns and self.esc.get(s[1]):
                for x in self.esc[s[1]]:
                    if ts:
                        if any(self.passes(g, j, x[2]) for g in ts):
                            out[x] = s[1]
                    elif last(short(n.get("n", ""))) in self.an.L.SYNC_LAST:
                        out[x] = s[1]
        if n["k"] == "call" and short(n.get("n", "")) == "std::function::operator()" and "o" in n:
            for l in self.stored(f, n) or ():
                for x in self.esc.get(l, ()):
                    out[x] = l
        if n["k"] == "call" and (n.get("op") == "()" or short(n.get("n", "")) == "std::function::operator()") and "o" in n:
            s = P.sym(f, n["o"])
            if s[0] == "lam" and s[1] in P.fns:
                for x in self.esc.get(s[1], ()):
                    out[x] = s[1]
        return out

    def solve(self):
        P = self.P
        own = {}
        for f in P.fns.values():
            own[f.id] = {(f.id, i, t): None for i, t, ty in self.sites(f) if not self.caught(f, ty, t)}
            if own[f.id]:
                self.esc[f.id] = dict(own[f.id])
        # callers of each function, also of lambdas handed over
        up = {}
        for f in P.fns.values():
            for i, n in f.calls():
                for g in P.targets(n):
                    up.setdefault(g.id, set()).add(f.id)
                for a in list(n.get("a", ())) + ([n["o"]] if "o" in n else []):
                    s = P.sym(f, a)
                    if s[0] == "lam":
                        up.setdefault(s[1], set()).add(f.id)
                if short(n.get("n", "")) == "std::function::operator()" and "o" in n:
                    for l in self.stored(f, n) or ():
                        up.setdefault(l, set()).add(f.id)
        work = set(self.esc)
        while work:
            nxt = set()
            for g in work:
                for c in up.get(g, ()):
                    f = P.fns[c]
                    e = self.esc.setdefault(c, {})
                    k = len(e)
                    for i, n in f.calls():
                        for s, o in self.leaving(f, i, n).items():
                            if s not in e and not self.caught(f, n.get("ty"), s[2]):
                                e[s] = (o, i)
                    if len(e) != k:
                        nxt.add(c)
            work = nxt

    def path(self, fid, site):
        P, out = self.P, []
        for _ in range(20):
            v = self.esc.get(fid, {}).get(site)
            if v is None:
                break
            out.append("%s" % self.an.where(P.fns[fid], v[1]))
            fid = v[0]
        out.append(self.an.where(P.fns[site[0]], site[1]))
        return out


def thread_bodies(an):
    """lambdas run as the function of a new thread: (lambda fn, where made)"""
    P = an.P
    for lid, (f, ln) in lam_nodes(an).items():
        for i, n in f.calls():
            t = n.get("t", "") + " " + short(n.get("n", ""))
            nm = short(n.get("n", ""))
            if not (nm == "std::make_shared" and "std::thread" in n.get("t", "") or nm == "std::make_unique" and "std::thread" in n.get("t", "") or nm in ("std::thread::thread", "std::jthread::jthread", "std::async")):
                continue
            if any(P.sym(f, a)[:2] == ("lam", lid) for a in n.get("a", ())) and lid in P.fns:
                yield P.fns[lid], f, i


def long_bodies(an):
    """what the daemon's own threads do: arguments of BeesThread, and the
    functions of plain threads"""
    P = an.P
    seen = set()
    for l, f, i in thread_bodies(an):
        if l.id not in seen:
            seen.add(l.id)
            yield l
    for lid, (f, ln) in lam_nodes(an).items():
        for i, n in f.calls():
            if short(n.get("n", "")).startswith("BeesThread::") and any(P.sym(f, a)[:2] == ("lam", lid) for a in n.get("a", ())) and lid in P.fns and lid not in seen:
                seen.add(lid)
                yield P.fns[lid]


def cycles(f):
    """block -> set of blocks of the largest loop it is in"""
    succ = {b["id"]: [x for x in b["su"] if isinstance(x, int)] for b in f.blocks}
    reach = {}
    for b in succ:
        seen, work = set(), list(succ[b])
        while work:
            x = work.pop()
            if x in seen or x not in succ:
                continue
            seen.add(x)
            work += succ[x]
        reach[b] = seen
    return {b: {x for x in reach[b] if b in reach.get(x, ())} for b in succ if b in reach[b]}


STOPW = ("stop", "cancel", "pause")


def loop_calls(an, f):
    """nodes in loops of f that go on until the thread is told to stop, or
    that wait in every round"""
    cyc = cycles(f)
    out = set()
    for b, body in cyc.items():
        nodes = [e for x in body for e in f.bmap[x]["el"] if isinstance(e, int)]
        endless = False
        for e in nodes:
            n = f.nodes[e]
            if n["k"] == "mem" and any(w in n["fd"].lower() for w in STOPW):
                endless = True
            if n["k"] == "call" and short(n.get("n", "")).startswith("std::condition_variable::wait"):
                endless = True
            if n["k"] == "call" and any(w in last(short(n.get("n", ""))) for w in ("stop_requested",)):
                endless = True
        if endless:
            out |= set(nodes)
    return out


def c22(an, R):
    P = an.P
    E = Esc(an)

    def tell(key, root, site, msg):
        p = E.path(root.id, site)
        R.bad(key, an.where(root), "%s (thrown at %s)" % (msg, p[-1]), p, root)

    R.rule("types", "everything thrown is derived from std::exception", 40)
    for f in P.fns.values():
        for i, t, ty in E.sites(f):
            if t != ANYF and f.nodes[i]["k"] == "throw":
                R.check(E.is_exc(t), "%s at %s" % (t, an.where(f, i)), "type:%s" % t, an.where(f, i), "%s is thrown, which is not derived from std::exception and is caught nowhere" % t, f)

    R.rule("threads", "no exception leaves the function of a thread", 3)
    bodies = list({l.id: (l, f, i) for l, f, i in thread_bodies(an)}.values())
    R.check(bodies, "threads are started", "threads:none", "src/bees-thread.cc", "no function of a thread was found")
    for l, f, i in bodies:
        bad = [s for s in E.esc.get(l.id, ()) if s[2] in ("std::system_error", ANYF) or not E.is_exc(s[2]) or s[0] == l.id]
        R.ok("function of the thread started at %s" % an.where(f, i), l)
        for s in bad[:4]:
            tell("thread:%s" % an.owner_of(l).short, l, s, "an exception ends the daemon because nothing catches it in the function of a thread")

    R.rule("tasks", "the function of a task runs inside a handler that catches every exception", 1)
    from .rules_sched import Model, body_fns
    M = Model(an)
    ex = body_fns(an, M)
    R.check(ex, "functions run tasks", "tasks:none", "lib/task.cc", "no function that runs a task was found")
    for f in ex:
        out = [s for s in E.esc.get(f.id, ()) if s[2] == ANYF]
        R.ok("%s runs tasks" % f.short, f)
        for s in out[:2]:
            tell("task:%s" % f.short, f, s, "an exception of a task leaves the function that runs it, before it has released the task")
    # who runs a function given to BeesThread
    for f in P.fns.values():
        if not f.short.startswith("BeesThread::") or f.is_lambda:
            continue

    R.rule("destructors", "no failed system call leaves a destructor or another function that must not throw", 20)
    for f in P.fns.values():
        if not (f.d.get("dtor") or f.d.get("nt")) or f.d.get("impl"):
            continue
        bad = [s for s in E.esc.get(f.id, ()) if s[2] in ("std::system_error", ANYF) or not E.is_exc(s[2]) or s[0] == f.id]
        R.ok(f.short, f)
        for s in bad[:3]:
            if f.short == "TaskMasterState::~TaskMasterState" and last(P.fns[s[0]].short) == "getloadavg1":
                continue        # it sets the number of workers to zero first, for which no load average is read
            tell("dtor:%s" % f.short, f, s, "an exception leaves a destructor and ends the daemon")

    R.rule("loops", "no failed system call ends the loop of a thread that is to go on until it is told to stop", 5)
    for l in long_bodies(an):
        seen, work = set(), [(l, ())]
        n_loops = 0
        while work:
            f, way = work.pop()
            if f.id in seen:
                continue
            seen.add(f.id)
            inl = loop_calls(an, f)
            if inl:
                n_loops += 1
                R.ok("loop in %s" % f.short, f)
            for i in f.live_nodes():
                n = f.nodes[i]
                if i in inl:
                    if n["k"] == "throw":
                        s = f.nd(n.get("s", -1))
                        if s is not None and strip_t(s.get("t", "")) == "std::system_error" and not E.caught(f, n.get("ty"), "std::system_error"):
                            R.bad("loop:%s" % f.short, an.where(f, i), "a failure ends the loop of the thread", [an.where(f, i)], f)
                        continue
                    for s, o in E.leaving(f, i, n).items():
                        if (s[2] in ("std::system_error", ANYF)) and not E.caught(f, n.get("ty"), s[2]):
                            R.bad("loop:%s" % f.short, an.where(f, i), "a failure at %s ends the loop of the thread in %s" % (an.where(P.fns[s[0]], s[1]), f.short), [an.where(f, i)] + E.path(o, s), f)
                elif n["k"] in ("call", "ctor") and len(way) < 6:
                    for g in P.targets(n):
                        if not g.d.get("dtor"):
                            work.append((g, way + (f.short,)))
                    for x in an.L.sync_lambda_args(f, n):
                        if x in P.fns:
                            work.append((P.fns[x], way + (f.short,)))
        R.ok("%d loops in the thread of %s" % (n_loops, an.where(l)), l)

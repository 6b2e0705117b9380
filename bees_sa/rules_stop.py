"""C25 orderly shutdown: on SIGTERM everything worth keeping is saved before the process ends."""
from .common import *
from .engine import Engine
from .rules_dedupe import key_fn
from .rules_scan import run, report_all
from .rules_save import reachable_from, is_field, noise
from .rules_excl import full

SIGS = {2: "SIGINT", 10: "SIGUSR1", 12: "SIGUSR2", 15: "SIGTERM"}
ALLSIGS = frozenset(SIGS)
WAITS = ("sigwaitinfo", "sigtimedwait")
ENDS = ("_exit", "_Exit", "exit", "quick_exit", "abort", "std::terminate", "std::exit", "std::_Exit", "std::quick_exit", "std::abort")


def creators(an):
    """ids of the functions in which, or below which, a thread is started"""
    P = an.P
    base = []
    for f in P.fns.values():
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] == "ctor" and short(n.get("n", "")) == "std::thread" and n.get("a") or n["k"] == "call" and "make_shared" in n.get("n", "") and ("std::thread" in n.get("t", "") or "shared_ptr<thread>" in n.get("t", "")):
                base.append(f)
                break
    return above(an, base)


def above(an, base):
    seen = {f.id for f in base}
    w = list(base)
    while w:
        f = w.pop()
        for c in an.callers_of(f):
            if c.id not in seen:
                seen.add(c.id)
                w.append(c)
        o = an.owner_of(f)
        if o.id not in seen:
            seen.add(o.id)
            w.append(o)
    return seen


class Main(NameAut):
    """state: (blocked signals, sets, signal, pause, started, stopped)"""
    expand = False

    def __init__(self, an, make):
        super().__init__()
        self.an = an
        self.make = make
        self.started_by = {"BeesContext::start"}
        self.nwait = self.nstop = self.nstart = 0
        self._ex = set(WAITS) | {"sigemptyset", "sigfillset", "sigaddset", "sigdelset", "sigprocmask", "pthread_sigmask", "TaskMaster::pause", "BeesContext::stop", "BeesContext::start"}
        self._ex |= set(ENDS)
        self.mk = {an.P.fns[i].short for i in make}

    def initial(self):
        return (frozenset(), frozenset(), None, None, False, False)

    def relevant(self, fn, i, n):
        return n["k"] in ("call", "ctor") and (NameAut.relevant(self, fn, i, n) or any(t.id in self.make for t in self.an.P.targets(n)))

    def never_enter(self, fn):
        return noise(fn) or fn.short in ("BeesContext::stop", "BeesContext::start", "TaskMaster::pause") or fn.id in self.make and not self.waits(fn)

    def waits(self, fn):
        if not hasattr(self, "_w"):
            self._w = above(self.an, [f for f, i, m in self.an.sites(set(WAITS) | {"BeesContext::stop", "BeesContext::start"}, False)])
        return fn.id in self._w

    def ignore_exc(self, ctx, n, name):
        return True

    def term(self, ctx, s):
        s = full(self.an, s)
        while s[0] in ("addr", "&", "*") and len(s) == 2:
            s = s[1]
        return s

    def setof(self, sets, s):
        for k, v in sets:
            if k == s:
                return v
        return None

    def put(self, sets, s, v):
        return frozenset((k, x) for k, x in sets if k != s) | {(s, v)}

    # ---- what the last signal may be
    def may(self, sig):
        if sig is None or sig == "err":
            return frozenset()
        return sig

    def on_call(self, st, ctx, n, name, recv, args):
        b, sets, sig, pz, started, stopped = st
        if n["k"] == "call" and name in WAITS:
            self.nwait += 1
            self.instances.add((ctx.fn.id, ctx.node))
            self.obey(st, ctx)
            s = self.setof(sets, self.term(ctx, args[0]))
            for k in sorted(ALLSIGS):
                if s is None or k not in s:
                    self.report(ctx, "wait:%s" % SIGS[k], "%s is not among the signals waited for" % SIGS[k])
                elif k not in b:
                    self.report(ctx, "wait-unblocked:%s" % SIGS[k], "%s is waited for while it is not blocked: it kills the process instead" % SIGS[k])
            return None
        if name == "BeesContext::stop":
            self.nstop += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not started:
                self.report(ctx, "stop-unstarted", "the daemon is stopped although it was never started")
            elif sig is None:
                self.report(ctx, "stop-unasked", "the daemon stops although no signal asked it to")
            for k in (10, 12):
                if k in self.may(sig):
                    self.report(ctx, "stop:%s" % SIGS[k], "%s ends the daemon" % SIGS[k])
            for k in (2, 15):
                if k in b:
                    self.report(ctx, "second:%s" % SIGS[k], "%s stays blocked while the daemon shuts down: sending it again does not end the process at once" % SIGS[k])
            return [(b, sets, sig, pz, started, True)]
        if name in ENDS and started and not stopped:
            self.report(ctx, "end-unsaved", "the process ends without saving what it has done")
        if name not in self._ex and name in self.mk or name == "BeesContext::start":
            if any(t.id in self.make and not (self.waits(t) and name != "BeesContext::start") for t in self.an.P.targets(n)) or name == "BeesContext::start":
                self.nstart += 1
                self.instances.add((ctx.fn.id, ctx.node))
                if not stopped and sig is None:
                    for k in sorted(ALLSIGS):
                        if k not in b:
                            self.report(ctx, "block:%s" % SIGS[k], "threads are started while %s is not blocked: it kills the process without saving" % SIGS[k])
        if name == "BeesContext::start":
            return [(b, sets, sig, pz, True, stopped)]
        return None

    def obey(self, st, ctx):
        """the previous signal was acted upon"""
        b, sets, sig, pz, started, stopped = st
        m = self.may(sig)
        for k in (2, 15):
            if k in m:
                self.report(ctx, "ignored:%s" % SIGS[k], "the daemon goes on after %s" % SIGS[k])
        for k, v in ((10, 1), (12, 0)):
            if k in m and pz != v:
                self.report(ctx, "ignored:%s" % SIGS[k], "%s does not %s the workers" % (SIGS[k], "pause" if v else "resume"))

    def after_call(self, st, ctx, n, name, recv, args):
        b, sets, sig, pz, started, stopped = st
        if n["k"] != "call":
            return None
        if name in WAITS:
            s = self.setof(sets, self.term(ctx, args[0]))
            return [(b, sets, s if s is not None else ALLSIGS, None, started, stopped)]
        if name == "TaskMaster::pause":
            v = konst(args[0]) if args else 1
            return [(b, sets, sig, v if v in (0, 1) else None, started, stopped)]
        if name in ("sigemptyset", "sigfillset") and args:
            return [(b, self.put(sets, self.term(ctx, args[0]), ALLSIGS if name == "sigfillset" else frozenset()), sig, pz, started, stopped)]
        if name in ("sigaddset", "sigdelset") and len(args) == 2:
            t = self.term(ctx, args[0])
            k = self.an.kval(args[1])
            old = self.setof(sets, t) or frozenset()
            return [(b, self.put(sets, t, (old | {k}) & ALLSIGS if name == "sigaddset" else old - {k}), sig, pz, started, stopped)]
        if name in ("sigprocmask", "pthread_sigmask") and len(args) == 3:
            how = self.an.kval(args[0])
            s = self.setof(sets, self.term(ctx, args[1])) if konst(args[1]) is None else None
            nb = b
            if konst(args[1]) is None:
                if how == 0:
                    nb = b | (s or frozenset())
                elif how == 1:
                    nb = b - (s or frozenset())
                elif how == 2:
                    nb = s or frozenset()
            if konst(args[2]) is None:
                sets = self.put(sets, self.term(ctx, args[2]), b)
            return [(nb, sets, sig, pz, started, stopped)]
        return None

    def is_sig(self, ctx, s):
        s = full(self.an, s)
        if s[0] == "f" and last(s[2]) == "si_signo":
            return True
        if s[0] == "c" and s[1] in WAITS:
            return True
        if s[0] == "v":
            o = [x for x in self.an.roots(s)]
            return bool(o) and all(x[0] == "c" and x[1] in WAITS for x in o)
        return False

    def on_branch(self, st, ctx, facts):
        b, sets, sig, pz, started, stopped = st
        if sig is None:
            return None
        new = sig
        for s, p in facts:
            s = full(self.an, s)
            while s[0] == "not":
                s, p = s[1], not p
            if s[0] != "o" or len(s) != 4 or s[1] not in ("==", "<"):
                continue
            for x, y, flip in ((s[2], s[3], False), (s[3], s[2], True)):
                k = konst(y)
                if k is None or not self.is_sig(ctx, x):
                    continue
                if s[1] == "<":
                    ok = {v for v in self.may(new) | {-1} if ((k < v) if flip else (v < k)) == p}
                else:
                    ok = {v for v in self.may(new) | {-1} if (v == k) == p}
                new = "err" if ok == {-1} else (self.may(new) & ok)
                if new == frozenset() and -1 not in ok:
                    return []
        return [(b, sets, new, pz, started, stopped)] if new != sig else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack and st[4] and not st[5]:
            self.report(ctx, "return-unsaved", "the process ends without saving what it has done")
        return None


class Stop(NameAut):
    """the steps of a shutdown.  tokens: the steps done"""
    expand = False
    names = ("TaskMaster::pause", "TaskMaster::cancel", "BeesRoots::stop_request", "BeesRoots::stop_wait", "BeesHashTable::stop_request", "BeesHashTable::stop_wait", "BeesThread::join") + ENDS
    fields = ("BeesContext::m_stop_requested", "BeesContext::m_stop_status", "BeesContext::m_roots", "BeesContext::m_hash_table")
    NICE = {"BeesRoots::stop_wait": "scan positions have been saved", "BeesHashTable::stop_wait": "hash table has been written"}

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.ends = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short in self.names and ".stop_" not in fn.short.replace("::", ".")

    def ignore_exc(self, ctx, n, name):
        return True

    def need(self, ctx, st, toks, key, msg):
        self.instances.add((ctx.fn.id, ctx.node))
        self.n += 1
        for t in toks:
            if t not in st:
                self.report(ctx, key, msg)
                return

    def on_call(self, st, ctx, n, name, recv, args):
        if n["k"] != "call":
            return None
        if name == "TaskMaster::pause":
            v = konst(args[0]) if args else 1
            return [st | {"pause"} if v == 1 else st - {"pause"}]
        if name == "BeesRoots::stop_wait":
            self.need(ctx, st, ["BeesRoots::stop_request"], "roots-unasked", "the crawler threads are waited for without having been asked to stop")
            self.need(ctx, st, ["pause"], "roots-unpaused", "the final scan positions are saved while the workers still take new tasks")
        elif name == "BeesHashTable::stop_wait":
            self.need(ctx, st, ["BeesHashTable::stop_request"], "hash-unasked", "the hash table threads are waited for without having been asked to stop")
        elif name == "TaskMaster::cancel":
            self.need(ctx, st, ["BeesRoots::stop_wait"], "cancel-early", "tasks are thrown away before the final scan positions were saved")
        elif name == "BeesThread::join" and recv and recv[0] == "f" and recv[2] == "BeesContext::m_status_thread":
            self.need(ctx, st, ["status"], "status-unasked", "the status thread is waited for without having been told to end")
        elif name in ENDS:
            self.ends += 1
            for t in ("BeesRoots::stop_wait", "BeesHashTable::stop_wait"):
                self.need(ctx, st, [t], "end-before:%s" % t, "the process ends before the %s" % self.NICE[t])
            if last(name) not in ("_exit", "_Exit"):
                self.report(ctx, "end-how", "the process is not ended by _exit: destructors run while its threads are still working")
            elif konst(full(self.an, args[0])) != 0:
                self.report(ctx, "end-status", "an orderly shutdown does not report success")
            return []
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if n["k"] == "call" and name.startswith(("BeesRoots::stop_", "BeesHashTable::stop_")):
            return [st | {name}]
        return None

    def flag(self, st, ctx, lhs, v):
        if is_field(lhs, "BeesContext::m_stop_requested") and v != 0:
            self.need(ctx, st, ["BeesRoots::stop_wait"], "flag-early", "scans are told to give up before the final scan positions were saved: what they have not looked at counts as done")
            return [st | {"flag"}]
        if is_field(lhs, "BeesContext::m_stop_status"):
            if v == 1:
                return [st | {"status"}]
            return [st - {"status"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        return self.flag(st, ctx, lhs, konst(rhs))

    def on_branch(self, st, ctx, facts):
        new = st
        for s, p in facts:
            for f, c in (("BeesContext::m_roots", "BeesRoots"), ("BeesContext::m_hash_table", "BeesHashTable")):
                x, q = s, p
                if s[0] == "o" and s[1] == "==" and len(s) == 4 and konst(s[3]) == 0:
                    x, q = s[2], not p
                if is_field(full(self.an, x), f) and not q:
                    new = new | {c + "::stop_request", c + "::stop_wait"}
        return [new] if new != st else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack:
            self.report(ctx, "no-end", "the process goes on to run destructors while its threads are still working")
        return None


class Joined(NameAut):
    """tokens: the threads joined"""

    def __init__(self, an, cls):
        super().__init__()
        self.an, self.cls = an, cls
        self._ex = {"BeesThread::join", "std::thread::join"}

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short == "BeesThread::join"

    def ignore_exc(self, ctx, n, name):
        return True

    def after_call(self, st, ctx, n, name, recv, args):
        if n["k"] == "call" and last(name) == "join" and recv is not None:
            for x in subterms(full(self.an, recv)):
                if x and x[0] == "f" and x[2].startswith(self.cls + "::"):
                    self.instances.add((ctx.fn.id, ctx.node))
                    return [st | {x[2]}]
        return None


class Join(NameAut):
    """BeesThread::join comes back when the thread has ended, or there is none"""
    expand = False
    names = ("std::thread::join", "std::thread::joinable", "std::thread::detach")
    fields = ("BeesThread::m_thread_ptr",)

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn)

    def ignore_exc(self, ctx, n, name):
        return True

    def after_call(self, st, ctx, n, name, recv, args):
        if name == "std::thread::join":
            return [st | {"done"}]
        return None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            s = full(self.an, s)
            if s[0] == "o" and s[1] == "==" and len(s) == 4 and konst(s[3]) == 0:
                s, p = s[2], not p
            if not p and (is_field(s, "BeesThread::m_thread_ptr") or s[0] == "c" and s[1] == "std::thread::joinable"):
                return [st | {"done"}]
        return None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack and "done" not in st:
            self.report(ctx, "join", "a thread is taken to have ended while it may still be running")
        return None


class Flagged(NameAut):
    """follows a flag, also through local variables that hold its value.
    state: (own state, frozenset of (variable, value))"""
    expand = False

    def flag_set(self, own, v):
        """own state after the flag was read as v; None: cannot be"""
        raise NotImplementedError

    def is_flag(self, s):
        raise NotImplementedError

    def step(self, st, v, var=None):
        own = self.flag_set(st[0], v)
        if own is None:
            return []
        vals = st[1]
        if var is not None:
            vals = frozenset(x for x in vals if x[0] != var) | {(var, v)}
        return [(own, vals)]

    def truth(self, s, p):
        while s[0] == "not":
            s, p = s[1], not p
        return s, p

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            s, p = self.truth(s, p)
            if s[0] == "v":
                for var, v in st[1]:
                    if var == s[1]:
                        return None if v == p else []
            s, p = self.truth(full(self.an, s), p)
            if self.is_flag(s):
                return self.step(st, p)
        return None

    def take(self, st, var, s):
        q, p = self.truth(full(self.an, s), True)
        if self.is_flag(q):
            # the variable holds the flag, or its negation
            out = []
            for v in (True, False):
                for own, vals in self.step(st, v):
                    out.append((own, frozenset(x for x in vals if x[0] != var) | {(var, v == p)}))
            return out
        k = konst(q)
        vals = frozenset(x for x in st[1] if x[0] != var)
        if k in (0, 1):
            vals |= {(var, bool(k) == p)}
        return [(st[0], vals)] if vals != st[1] else None

    def on_bind(self, st, ctx, var, typ, s):
        return self.take(st, var, s) if typ and "bool" in str(typ) and s is not None else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and (op in ("=", None, "") or any(x[0] == lhs[1] for x in st[1])):
            return self.take(st, lhs[1], rhs)
        return None


class Final(Flagged):
    """a writeback thread ends only after it saved once more, the stop request seen.
    state: (seen, saved)"""
    expand = False

    def __init__(self, an, flag, save, pred, what, key):
        super().__init__()
        self.an, self.flag, self.save, self.pred, self.what, self.key = an, flag, save, pred, what, key
        self._ex = {save}
        self._fl = {flag}
        self.n = 0

    def initial(self):
        return ((False, False), frozenset())

    def never_enter(self, fn):
        return noise(fn) or fn.short == self.save

    def ignore_exc(self, ctx, n, name):
        return True

    def is_flag(self, s):
        return is_field(s, self.flag)

    def flag_set(self, own, v):
        if v:
            return own if own[0] else (True, False)
        return None if own[0] else own

    def on_call(self, st, ctx, n, name, recv, args):
        if name == self.save and st[0][0] and self.pred(args):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [((True, True), st[1])]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and not st[0][1]:
            self.report(ctx, self.key, "the thread ends without writing %s once more after it was asked to stop" % self.what)
        return None


class Leave(Flagged):
    """once a thread has seen its stop flag set it does not go to sleep again,
    and it looks at the flag before every sleep.
    state: (seen true, seen false since the last sleep)"""
    expand = False

    def __init__(self, an, flags):
        super().__init__()
        self.an, self.flags = an, flags
        self._ex = set()
        self._fl = set(flags)
        self.n = 0

    def relevant(self, fn, i, n):
        if n["k"] == "call" and short(n.get("n", "")).startswith(("std::condition_variable::wait", "std::condition_variable_any::wait")) or n["k"] == "call" and short(n.get("n", "")) in SLEEP:
            return True
        if n["k"] == "call" and short(n.get("n", "")) == "BeesContext::stop_requested":
            return True
        return NameAut.relevant(self, fn, i, n)

    def initial(self):
        return ((False, False), frozenset())

    def never_enter(self, fn):
        return noise(fn) or fn.short == "BeesContext::stop_requested" or fn.cls in ("RateLimiter", "RateEstimator", "ProgressTracker", "TaskMasterState", "TaskState", "LockSet", "MultiLocker", "BeesNote", "BeesStats")

    def ignore_exc(self, ctx, n, name):
        return True

    def is_flag(self, s):
        return s[0] == "f" and s[2] in self.flags or s[0] == "c" and s[1] == "BeesContext::stop_requested" and "BeesContext::m_stop_requested" in self.flags

    def flag_set(self, own, v):
        if v:
            return (True, False)
        return None if own[0] else (False, True)

    def on_call(self, st, ctx, n, name, recv, args):
        if n["k"] == "call" and ("::wait" in name and name.startswith("std::condition_variable") or name in SLEEP):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if st[0][0]:
                self.report(ctx, "sleep-on", "the thread goes back to sleep although it was asked to stop")
            elif not st[0][1]:
                self.report(ctx, "sleep-blind", "the thread goes to sleep without looking whether it was asked to stop")
            return [((st[0][0], False), st[1])]
        return None


SLEEP = ("nanosleep", "sleep", "usleep", "std::this_thread::sleep_for", "std::this_thread::sleep_until", "clock_nanosleep")


class Paused(NameAut):
    """a worker looks whether work is paused before it runs each task"""
    expand = False
    names = ("TaskState::exec",)
    fields = ("TaskMasterState::m_paused",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return False

    def never_enter(self, fn):
        return noise(fn) or fn.short == "TaskState::exec"

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if is_field(full(self.an, s), "TaskMasterState::m_paused"):
                return [not p]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "TaskState::exec":
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not st:
                self.report(ctx, "run-paused", "a worker takes another task while work is paused")
            return [False]
        return None


def thread_of(an, field):
    """the functions a BeesThread member runs: lambdas given to its exec or constructor"""
    P = an.P
    out = {}
    for f in P.fns.values():
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] == "call" and short(n.get("n", "")) == "BeesThread::exec" and "o" in n:
                r = full(an, P.sym(f, n["o"], None, 0, False))
                if r[0] == "f" and r[2] == field:
                    for a in n.get("a", ()):
                        s = P.sym(f, a)
                        for x in subterms(s):
                            if x and x[0] == "lam":
                                g = P.fns.get(x[1])
                                if g is not None:
                                    out[g.id] = g
    return list(out.values())


def bees_threads(an, cls):
    r = an.P.records.get(cls)
    if not r:
        raise AnalysisBroken("%s was not found" % cls)
    return [cls + "::" + x["name"] for x in r["fields"] if "BeesThread" in x["t"] and "vector" not in x["t"]]


def sets_flag(an, fn, flag):
    """every path through fn leaves flag set"""
    class A(NameAut):
        expand = False
        fields = (flag,)

        def initial(self):
            return False

        def never_enter(self, f):
            return noise(f)

        def ignore_exc(self, ctx, n, name):
            return True

        def on_assign(self, st, ctx, n, lhs, rhs, op):
            if is_field(lhs, flag):
                return [konst(rhs) == 1]
            return None
    a = A()
    e = Engine(an.P, a, throw=False)
    r = e.run(fn, False)
    return bool(r) and all(x[1] for x in r if x[0] == "ret")


def c25(an, R):
    P = an.P
    make = creators(an)
    R.rule("signals", "the signals are blocked before any thread starts and each has its effect: SIGTERM and SIGINT stop the daemon, SIGUSR1 pauses and SIGUSR2 resumes the workers", 4)
    stops = P.fn("BeesContext::stop", required=False)
    if not stops:
        R.bad("no-stop", "src/bees-context.cc", "nothing stops the daemon in order")
        return []
    roots = [f for f in an.roots_for([c for s in stops for c in an.callers_of(s)]) if f.id in an.reach or f.short == "main"]
    if not roots:
        R.bad("no-stop-call", "src/bees.cc", "nothing ever stops the daemon in order")
    tot = [0, 0, 0]
    for f in roots:
        top = f
        # main only looks at its arguments: begin where the threads are started
        a, e = run(an, top, lambda: Main(an, make), R)
        tot = [tot[0] + a.nwait, tot[1] + a.nstop, tot[2] + a.nstart]
        if report_all(an, R, f, a):
            R.ok("signal handling below %s" % f.short, f)
    R.check(tot[0] > 0, "signals are waited for", "no-wait", "src/bees.cc", "nothing waits for the signals that stop the daemon")
    R.check(tot[1] > 0, "the daemon can be stopped", "no-stop-path", "src/bees.cc", "no signal ever stops the daemon in order")
    R.check(tot[2] > 0, "threads are started", "no-start", "src/bees.cc", "no thread is ever started")

    R.rule("order", "shutdown pauses the workers, then waits until scan positions and hash table were saved, and only then tells scans to give up and ends the process", 5)
    for f in stops:
        a, e = run(an, f, lambda: Stop(an), R)
        if report_all(an, R, f, a):
            R.ok("order of shutdown in %s" % f.short, f)
            for i in range(a.n):
                R.ok("step %d of shutdown" % i, f)
        R.check(a.ends > 0, "shutdown ends the process", "never-ends", an.where(f), "shutdown does not end the process", f)
    # nothing else tells scans to give up
    own = {f.id for f in stops} | reachable_from(an, stops)
    for f, r, kind, i in an.field_writes.get("BeesContext::m_stop_requested", ()):
        if kind == "init" or f.id in own:
            continue
        v = konst(P.sym(f, r)) if r is not None else None
        R.check(v == 0, "stop flag in %s" % f.short, "flag-elsewhere:%s" % f.short, an.where(f, i), "scans are told to give up although nothing was saved", f)
    for f, i, m in an.sites({"TaskMaster::cancel"}):
        R.check(f.id in own, "cancel in %s" % f.short, "cancel:%s" % f.short, an.where(f, i), "tasks are thrown away outside the shutdown", f)

    R.rule("request", "asking a part to stop sets its flag, and waiting for it waits for all its threads", 6)
    for cls in ("BeesRoots", "BeesHashTable"):
        flag = cls + "::m_stop_requested"
        for f in P.fn(cls + "::stop_request"):
            R.check(sets_flag(an, f, flag), "%s sets the flag" % f.short, "%s:flag" % cls, an.where(f), "a path through %s leaves the stop flag unset" % f.short, f)
        for f, r, kind, i in an.field_writes.get(flag, ()):
            if kind != "init":
                R.check(konst(P.sym(f, r)) == 1 if r is not None else False, "%s is only ever set" % flag, "%s:reset:%s" % (cls, f.short), an.where(f, i), "a request to stop is withdrawn", f)
        ths = bees_threads(an, cls)
        R.check(len(ths) >= 2, "threads of %s" % cls, "%s:threads" % cls, "src/bees.h", "%s no longer has its threads" % cls)
        for f in P.fn(cls + "::stop_wait"):
            a = Joined(an, cls)
            e = Engine(P, a)
            r = [x for x in e.run(f, a.initial()) if x[0] == "ret"]
            R.states += e.nstates
            for t in ths:
                if not thread_of(an, t):
                    R.bad("%s:unused:%s" % (cls, t), "src/bees.h", "%s runs nothing" % t)
                R.check(bool(r) and all(t in x[1] for x in r), "%s waits for %s" % (f.short, t), "%s:join:%s" % (cls, last(t)), an.where(f), "%s comes back without having waited for %s" % (f.short, last(t)), f)
    for f in P.fn("BeesThread::join"):
        a, e = run(an, f, lambda: Join(an), R)
        if report_all(an, R, f, a):
            R.ok("join waits", f)
    for f, i, m in an.sites({"std::thread::detach"}):
        R.check(not (f.cls or "").startswith("BeesThread"), "detach in %s" % f.short, "detach:%s" % f.short, an.where(f, i), "a thread that is later waited for is detached", f)

    R.rule("final", "the threads that save scan positions and hash table save once more after they were asked to stop", 2)
    for field, flag, save, pred, what in (
            ("BeesRoots::m_writeback_thread", "BeesRoots::m_stop_requested", "BeesRoots::state_save", lambda a: True, "the scan positions"),
            ("BeesHashTable::m_writeback_thread", "BeesHashTable::m_stop_requested", "BeesHashTable::flush_dirty_extents", lambda a: bool(a) and konst(a[0]) == 0, "the whole hash table")):
        for f in thread_of(an, field):
            a, e = run(an, f, lambda: Final(an, flag, save, pred, what, "final"), R)
            if report_all(an, R, f, a, last(field.split("::")[0])):
                R.check(a.n > 0, "%s written at the end" % what, "%s:never" % field, an.where(f), "the thread never writes %s after it was asked to stop" % what, f)

    R.rule("leave", "each thread that shutdown waits for looks for the stop request before every sleep and does not sleep again after it", 5)
    for field, flags in [(t, ("BeesRoots::m_stop_requested",)) for t in bees_threads(an, "BeesRoots")] + [(t, ("BeesHashTable::m_stop_requested",)) for t in bees_threads(an, "BeesHashTable")] + [("BeesContext::m_status_thread", ("BeesContext::m_stop_status",))]:
        for f in thread_of(an, field):
            a, e = run(an, f, lambda: Leave(an, flags), R)
            if report_all(an, R, f, a, field.replace("BeesContext::", "").replace("::", "-")):
                R.ok("thread %s leaves (%d sleeps)" % (field, a.n), f)

    R.rule("pause", "a pause keeps every worker from taking another task", 2)
    for f in P.fn("TaskMasterState::pause") + P.fn("TaskMaster::pause"):
        ok = False
        if f.short.startswith("TaskMasterState"):
            for g, r, kind, i in an.field_writes.get("TaskMasterState::m_paused", ()):
                if g.id == f.id and r is not None and f.params and P.sym(g, r) == ("v", f.params[0]["var"]):
                    ok = True
            class W(NameAut):
                fields = ("TaskMasterState::m_paused",)

                def initial(self):
                    return False

                def never_enter(self, g):
                    return noise(g)

                def ignore_exc(self, ctx, n, name):
                    return True

                def on_assign(self, st, ctx, n, lhs, rhs, op):
                    return [True] if is_field(lhs, "TaskMasterState::m_paused") else None
            a = W()
            e = Engine(P, a, throw=False)
            ok = ok and all(x[1] for x in e.run(f, False) if x[0] == "ret")
        else:
            for i, m in f.calls():
                if short(m.get("n", "")) == "TaskMasterState::pause" and m.get("a") and P.sym(f, m["a"][0]) == ("v", f.params[0]["var"]):
                    ok = True
        R.check(ok, "%s does what it is told" % f.short, "%s" % f.short, an.where(f), "%s does not pass on whether work is to be paused" % f.short, f)
    n = 0
    fs = {}
    for f, i, m in an.sites({"TaskState::exec"}):
        o = an.owner_of(f) or f
        fs[o.id] = o
    for f in fs.values():
        a, e, v = an.prove(f, lambda: Paused(an), 2)
        n += a.n
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("pause respected in %s" % f.short, f)
    R.check(n > 0, "tasks are run", "no-exec", "lib/task.cc", "no worker ever runs a task")
    return ["a failing write during shutdown is reported and does not keep the process alive (that what could not be written stays due is decided by C11 and C13)"]

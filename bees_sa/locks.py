"""Must-hold lockset analysis over the whole program.

State: a set of (mutex path, owner) pairs that are held on every path, where
owner is the guard variable (or '-' for a direct mutex.lock()).  Functions
reached from several call sites start with what all their call sites hold,
translated into the callee's own terms ("this", parameters).  Lambdas that are
called synchronously (catch_all, standard algorithms, repository functions
that invoke their function parameter) inherit the set at the call; lambdas
that are stored or given to threads and tasks start empty."""
from collections import defaultdict
from .model import short, strip_t, walk, show

GUARDS = {"std::unique_lock", "std::lock_guard", "std::scoped_lock"}
MUTEXES = {"std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex"}
TOP = None


def last_name(n):
    return short(n.get("n", "")).rsplit("::", 1)[-1]


def is_guard_type(t):
    return strip_t(t) in GUARDS or strip_t(t).endswith("PairLock")


class Locks:
    def __init__(self, P, engine_sync=None):
        self.P = P
        self.entry = {}     # fn id -> frozenset or TOP
        self.at = {}        # (fn id, node idx) -> frozenset held just before node
        self.dtor_at = {}
        self.exits = {}
        self.retlock = {}
        self.acq = defaultdict(list)  # fn id -> [(node/line, mutexsym)]
        self.sync_param = self._sync_params()
        self._guard_info = {}
        self._wrapper_types()
        self.solve()

    # ------------------------------------------------------------- sync lambda
    def _sync_params(self):
        """(fn id, param index) pairs whose function argument is invoked by the
        callee before it returns"""
        P = self.P
        sp = set()
        self.sync_param = sp
        syncl = set()       # lambdas known to run before their creator returns
        changed = True
        while changed:
            changed = False
            for f in P.fns.values():
                for i, n in f.calls():
                    for l in self.sync_lambda_args(f, n):
                        if l not in syncl:
                            syncl.add(l)
                            changed = True
            for f in P.fns.values():
                pv = {p["var"]: j for j, p in enumerate(f.params)}
                if not pv:
                    continue
                for g in [f] + [x for x in P.lambdas_of(f.id) if self._chain_sync(x, f, syncl)]:
                    for i, n in g.calls():
                        if n["k"] == "call" and (short(n.get("n", "")) == "std::function::operator()" or n.get("op") == "()" or "ind" in n):
                            o = n.get("o", n.get("ind"))
                            on = g.nd(o)
                            if on and on["k"] == "ref" and on["var"] in pv:
                                k = (f.id, pv[on["var"]])
                                if k not in sp:
                                    # only when g runs synchronously; treat own lambdas as such
                                    sp.add(k)
                                    changed = True
                        # forwarded
                        for t in P.targets(n):
                            for j, a in enumerate(n.get("a", ())):
                                s = P.sym(g, a)
                                if s[0] == "v" and s[1] in pv and (t.id, j) in sp:
                                    k = (f.id, pv[s[1]])
                                    if k not in sp:
                                        sp.add(k)
                                        changed = True
        return sp

    def _chain_sync(self, lf, f, syncl):
        """lf and all lambdas between it and f run synchronously"""
        x = lf.id
        for _ in range(10):
            if x not in syncl:
                return False
            x = self.P.lambda_owner.get(x)
            if x == f.id or x is None:
                return True
        return False

    SYNC_LAST = {"sort", "for_each", "find_if", "any_of", "all_of", "none_of", "remove_if", "count_if", "stable_sort", "transform", "call_once", "partition"}

    def sync_lambda_args(self, fn, n):
        """lambda function ids run synchronously by this call"""
        P = self.P
        out = []
        nm = short(n.get("n", ""))
        ts = P.targets(n)
        for j, a in enumerate(n.get("a", ())):
            s = P.sym(fn, a)
            if s[0] == "lam":
                if ts:
                    if any((t.id, j) in self.sync_param for t in ts):
                        out.append(s[1])
                elif nm.rsplit("::", 1)[-1] in self.SYNC_LAST or nm.startswith("std::condition_variable"):
                    out.append(s[1])
        if n["k"] == "call" and n.get("op") == "()" or nm == "std::function::operator()":
            if "o" in n:
                s = P.sym(fn, n["o"])
                if s[0] == "lam":
                    out.append(s[1])
        return out

    # ------------------------------------------------------------- wrapper types
    def _wrapper_types(self):
        """repository RAII classes that hold std guards as members (PairLock-like):
        ctor param index -> locked"""
        self.raii = {}
        for name, r in self.P.records_full.items():
            fs = [f for f in r["fields"] if strip_t(f["t"]) in GUARDS]
            if fs and len(fs) == len(r["fields"]):
                self.raii[short(name)] = any(last_name(n) == "lock" and short(n["n"]) == "std::lock" for f in self.P.fns.values() if f.d.get("ctor") and f.cls == short(name) for _, n in f.calls())

    def guard_mutexes(self, fn, init, env=None):
        """(list of mutex syms, locked?) of a guard constructed by node init"""
        P = self.P
        n = fn.nd(init)
        if n is None:
            return [], False
        if n["k"] == "ctor":
            cls = short(n["n"]).rsplit("::", 1)[0]
            if (n.get("cp") or n.get("mv")) and n["a"]:
                return self.guard_mutexes(fn, n["a"][0], env)
            if cls in GUARDS:
                a = [P.sym(fn, x, env) for x in n["a"]]
                if not a:
                    return [], False
                tag = ""
                if len(n["a"]) > 1:
                    tag = strip_t(fn.nd(n["a"][-1]).get("t", ""))
                locked = not ("defer_lock" in tag or "try_to_lock" in tag)
                ms = [x for x, y in zip(a, n["a"]) if strip_t(fn.nd(y).get("t", "")) in MUTEXES]
                return ms, locked
            if cls in self.raii:
                ms = [P.sym(fn, x, env) for x in n["a"] if strip_t(fn.nd(x).get("t", "")) in MUTEXES]
                return ms, True
        if n["k"] == "call":
            if self.is_process_lock(n):
                a = P.sym(fn, n["a"][0], env) if n["a"] else ("?",)
                while a[0] in ("ctor", "c") and len(a) > 2 and a[2]:
                    a = a[2][0] if isinstance(a[2], tuple) and a[2] and isinstance(a[2][0], tuple) else ("?",)
                return [("process-lock", a)], True
            if strip_t(n.get("t", "")) in GUARDS:
                for t in P.targets(n):
                    e = {}
                    if "o" in n:
                        e["this"] = P.sym(fn, n["o"], env)
                    for p, a in zip(t.params, n["a"]):
                        e[p["var"]] = P.sym(fn, a, env)
                    for i in t.live_nodes():
                        rn = t.nodes[i]
                        if rn["k"] == "ret":
                            s = rn["s"]
                            # `return unique_lock(m)` or `return helper(...)` or a local guard
                            r = self.guard_mutexes(t, s, e)
                            if r[0]:
                                return r
                            sn = t.nd(s)
                            while sn and sn["k"] == "ctor" and sn["a"] and (sn.get("cp") or sn.get("mv")):
                                sn = t.nd(sn["a"][0])
                            if sn and sn["k"] == "call" and short(sn.get("n", "")) == "std::move":
                                sn = t.nd(sn["a"][0])
                            if sn and sn["k"] == "ref":
                                for d in t.defs.get(sn["var"], ()):
                                    if d[0] == "decl":
                                        r = self.guard_mutexes(t, d[1], e)
                                        if r[0]:
                                            return r
        return [], False

    @staticmethod
    def is_process_lock(n):
        t = n.get("t", "")
        return short(n.get("n", "")) == "MultiLocker::get_lock"

    def _guard_var(self, fn, d):
        t = strip_t(d[2]["t"])
        if t in GUARDS or t in self.raii:
            return True
        if t == "std::shared_ptr" and "LockHandle" in d[2]["t"]:
            n = fn.nd(d[1])
            while n and n["k"] == "ctor" and n["a"] and (n.get("cp") or n.get("mv")):
                n = fn.nd(n["a"][0])
            return bool(n) and n["k"] == "call" and self.is_process_lock(n)
        return False

    def guards_of(self, fn):
        """guard variable -> (mutex syms, initially locked); looks through
        captured guards in enclosing functions"""
        g = self._guard_info.get(fn.id)
        if g is None:
            g = {}
            o = self.P.lambda_owner.get(fn.id)
            if o and o in self.P.fns:
                g.update(self.guards_of(self.P.fns[o]))
            for v, ds in fn.defs.items():
                for d in ds:
                    if d[0] == "decl" and self._guard_var(fn, d):
                        ms, lk = self.guard_mutexes(fn, d[1])
                        g[v] = (ms, lk)
                    elif d[0] == "as" and v in g and not g[v][0]:
                        ms, lk = self.guard_mutexes(fn, d[1])
                        g[v] = (ms, False)
            # member guards of RAII wrappers are handled by their class
            self._guard_info[fn.id] = g
        return g

    # ------------------------------------------------------------- solving
    def solve(self):
        P = self.P
        entry = {fid: TOP for fid in P.fns}
        # roots: no callers and not synchronously-called lambdas
        self.lam_sync_sites = defaultdict(list)
        for f in P.fns.values():
            for i, n in f.calls():
                for l in self.sync_lambda_args(f, n):
                    self.lam_sync_sites[l].append((f, i))
        addr_taken = set()
        for f in P.fns.values():
            for i in f.live_nodes():
                n = f.nodes[i]
                if n["k"] == "ref" and n.get("vk") == "f":
                    p = f.parents.get(i)
                    if p and p[1][0] != "callee":
                        addr_taken.add(n["f"])
        for f in P.fns.values():
            cs = [c for c in P.callers.get(f.id, ())]
            if f.is_lambda:
                if not self.lam_sync_sites.get(f.id):
                    entry[f.id] = frozenset()
            elif not cs or f.id in addr_taken:
                entry[f.id] = frozenset()
        self.entry = entry
        dirty = set(P.fns)
        rounds = 0
        while dirty and rounds < 60:
            rounds += 1
            work, dirty = dirty, set()
            for fid in work:
                f = P.fns[fid]
                if not f.blocks or self.entry[fid] is TOP:
                    continue
                for callee, s in self._analyse(f):
                    old = self.entry[callee]
                    new = s if old is TOP else old & s
                    if new != old:
                        self.entry[callee] = new
                        dirty.add(callee)
        # callers whose entry stayed TOP (dead cycles): analyse with nothing held
        for fid, f in P.fns.items():
            if self.entry[fid] is TOP and f.blocks:
                self.entry[fid] = frozenset()
                for callee, s in self._analyse(f):
                    if self.entry[callee] is not TOP:
                        self.entry[callee] &= s

    def _translate(self, held, env_pairs):
        """caller lockset -> callee terms.  env_pairs: [(caller sym, callee sym)]"""
        out = set()
        for m, owner in held:
            r = m
            for a, b in env_pairs:
                if a == b:
                    continue
                r = self._subst(r, a, b)
            out.add((r, "^"))
            if r != m and m[0] == "g":
                out.add((m, "^"))
        return frozenset(out)

    def _subst(self, s, a, b):
        if s == a:
            return b
        if isinstance(s, tuple):
            return tuple(self._subst(x, a, b) if isinstance(x, tuple) else x for x in s)
        return s

    def _analyse(self, fn):
        """intraprocedural pass; records self.at, yields (callee, entry set)"""
        P = self.P
        guards = self.guards_of(fn)
        inn = {b["id"]: TOP for b in fn.blocks}
        inn[fn.entry] = self.entry[fn.id]
        # exception handlers start with what every call in the try block holds
        # in guards declared outside the block (guards inside it are gone)
        self._exc = {}
        self._decl_ty = {}
        if fn.tries:
            for n in fn.nodes:
                if n and n["k"] == "decl":
                    for v in n["d"]:
                        self._decl_ty[v["var"]] = n.get("ty", -1)
        work = [fn.entry]
        n_it = 0
        while work and n_it < 5000:
            n_it += 1
            bid = work.pop()
            st = inn[bid]
            if st is TOP:
                continue
            st = self._transfer(fn, fn.bmap[bid], st, guards, None)
            for t, x in self._exc.items():
                for h in fn.tries[t]["h"]:
                    if h["b"] >= 0:
                        old = inn[h["b"]]
                        new = x if old is TOP else old & x
                        if new != old:
                            inn[h["b"]] = new
                            work.append(h["b"])
            if fn.bmap[bid].get("nr"):
                continue
            for j, s in enumerate(fn.bmap[bid]["su"]):
                if s < 0:
                    continue
                old = inn[s]
                out = self._branch(fn, fn.bmap[bid], j, st, guards)
                new = out if old is TOP else old & out
                if new != old:
                    inn[s] = new
                    work.append(s)
        for t in fn.tries:
            for h in t["h"]:
                if h["b"] >= 0 and inn[h["b"]] is TOP:
                    inn[h["b"]] = self.entry[fn.id]
        outs = []
        for b in fn.blocks:
            if inn[b["id"]] is not TOP:
                self._transfer(fn, b, inn[b["id"]], guards, outs)
        self.exits[fn.id] = inn.get(fn.exit)
        return outs

    def _branch(self, fn, b, j, st, guards):
        """`if (lock.owns_lock())`: the guard's mutexes are held on the true edge"""
        tc = b.get("tc", -1)
        if tc is None or tc < 0 or len(b["su"]) != 2:
            return st
        n = fn.nd(tc)
        pos = j == 0
        while n and (n["k"] == "cast" or n["k"] == "un" and n["op"] == "!"):
            if n["k"] == "un":
                pos = not pos
            n = fn.nd(n["s"])
        if not n or n["k"] != "call" or "o" not in n or not pos:
            return st
        nm = short(n.get("n", ""))
        if nm.rsplit("::", 1)[0] in GUARDS and nm.rsplit("::", 1)[-1] in ("owns_lock", "operator bool", "try_lock"):
            on = fn.nd(n["o"])
            if on and on["k"] == "ref" and on["var"] in guards:
                return st | {(m, on["var"]) for m in guards[on["var"]][0]}
        return st

    def _throws(self, fn, n, cur):
        t = n.get("ty", -1)
        while t is not None and t >= 0:
            keep = frozenset(x for x in cur if not self._inside(fn, self._decl_ty.get(x[1], -1), t))
            self._exc[t] = keep if t not in self._exc else self._exc[t] & keep
            t = fn.tries[t]["parent"]

    @staticmethod
    def _inside(fn, a, t):
        while a is not None and a >= 0:
            if a == t:
                return True
            a = fn.tries[a]["parent"]
        return False

    def _transfer(self, fn, b, st, guards, outs):
        P = self.P
        rec = outs is not None
        cur = set(st)
        for e in b["el"]:
            if isinstance(e, dict):
                if e["k"] == "dtor":
                    if rec:
                        self.dtor_at[(fn.id, e.get("var") or e.get("fd") or e.get("tmp"))] = frozenset(cur)
                        if e.get("f") in P.fns and P.fns[e["f"]].blocks:
                            s = ("v", e.get("var")) if "var" in e else ("f", ("this",), short(e["fd"])) if "fd" in e else ("this",) if "base" in e else ("tmp", fn.id, e.get("tmp"))
                            outs.append((e["f"], self._translate(frozenset(cur), [(s, ("this",))])))
                    if "var" in e and e["var"] in guards:
                        cur = {x for x in cur if x[1] != e["var"]}
                    elif "tmp" in e:
                        cur = {x for x in cur if x[1] != ("tmp", e["tmp"])}
                continue
            n = fn.nodes[e]
            if rec:
                self.at[(fn.id, e)] = frozenset(cur)
            k = n["k"]
            if fn.tries and k in ("call", "ctor", "throw", "new"):
                self._throws(fn, n, cur)
            if k == "decl":
                for v in n["d"]:
                    if v["var"] in guards and self._guard_var(fn, ("decl", v["init"], v)):
                        ms, lk = guards[v["var"]]
                        # `auto lock2 = move(lock)`: transfer
                        cur = {x for x in cur if x[1] != v["var"]}
                        if lk:
                            t = strip_t(v["t"])
                            atomic = t == "std::scoped_lock" or self.raii.get(t)
                            base = frozenset(cur)
                            for m in ms:
                                if rec and not (ms[0][0] == "process-lock" and fn.short == "MultiLocker::get_lock"):
                                    self.acq[fn.id].append((n.get("l"), m, base if atomic else frozenset(cur)))
                                cur.add((m, v["var"]))
                        src = self._moved_from(fn, v["init"], guards)
                        if src:
                            for x in list(cur):
                                if x[1] == src:
                                    cur.discard(x)
                                    cur.add((x[0], v["var"]))
                continue
            if k in ("call", "ctor"):
                nm = short(n.get("n", ""))
                last = nm.rsplit("::", 1)[-1]
                cls = nm.rsplit("::", 1)[0] if "::" in nm else ""
                if rec:
                    self._record_calls(fn, e, n, cur, outs)
                if cls == "std::shared_ptr" and last == "reset" and "o" in n:
                    on = fn.nd(n["o"])
                    if on and on["k"] == "ref" and on["var"] in guards:
                        cur = {x for x in cur if x[1] != on["var"]}
                if cls in GUARDS and "o" in n:
                    on = fn.nd(n["o"])
                    var = on["var"] if on and on["k"] == "ref" else None
                    if on and on["k"] == "mem":
                        # guard stored in a member
                        var = ("m", P.sym(fn, n["o"]))
                    if last == "unlock":
                        cur = {x for x in cur if x[1] != var}
                    elif last == "lock":
                        if var in guards:
                            for m in guards[var][0]:
                                if rec:
                                    self.acq[fn.id].append((n.get("l"), m, frozenset(cur)))
                                cur.add((m, var))
                    elif last == "release":
                        cur = {x for x in cur if x[1] != var}
                    elif last == "swap" or n.get("op") == "=":
                        src = self._moved_from(fn, n["a"][0], guards) if n["a"] else None
                        held_src = {x for x in cur if src and x[1] == src}
                        cur = {x for x in cur if x[1] != var and not (src and x[1] == src)}
                        for x in held_src:
                            cur.add((x[0], var))
                        if not src and n["a"]:
                            ms, lk = self.guard_mutexes(fn, n["a"][0])
                            if lk:
                                for m in ms:
                                    cur.add((m, var))
                elif cls in MUTEXES and "o" in n:
                    m = P.sym(fn, n["o"])
                    if last == "lock":
                        if rec:
                            self.acq[fn.id].append((n.get("l"), m, frozenset(cur)))
                        cur.add((m, "-"))
                    elif last == "unlock":
                        cur = {x for x in cur if x[0] != m}
                elif nm == "std::lock":
                    base = frozenset(cur)
                    for a in n["a"]:
                        an = fn.nd(a)
                        if an and an["k"] == "ref" and an["var"] in guards:
                            for m in guards[an["var"]][0]:
                                cur.add((m, an["var"]))
                                if rec:
                                    self.acq[fn.id].append((n.get("l"), m, base))
                else:
                    # a synchronous lambda may release guards it captured
                    for l in self.sync_lambda_args(fn, n):
                        lf = P.fns.get(l)
                        if lf:
                            ex = self.exits.get(l)
                            touched = self._touched_guards(lf)
                            if touched:
                                for x in list(cur):
                                    if x[1] in touched and not self._kept(lf, x):
                                        cur.discard(x)
        return frozenset(cur)

    def _touched_guards(self, lf):
        out = set()
        for i, n in lf.calls():
            nm = short(n.get("n", ""))
            if nm.rsplit("::", 1)[0] in GUARDS and nm.rsplit("::", 1)[-1] in ("unlock", "lock", "release", "swap") and "o" in n:
                on = lf.nd(n["o"])
                if on and on["k"] == "ref":
                    out.add(on["var"])
        for l in self.P.lambdas_of(lf.id):
            out |= self._touched_guards(l) if l.id != lf.id else set()
        return out

    def _kept(self, lf, x):
        """pair x is certainly held when lf returns or throws"""
        ex = self.exits.get(lf.id)
        if ex is None or x not in ex:
            return False
        # any possibly-throwing call while x is released?
        for i, n in lf.calls():
            h = self.at.get((lf.id, i))
            if h is None or x in h:
                continue
            ts = self.P.targets(n)
            if any(self.P.may_throw(t) for t in ts) or (not ts and self.P.node_throws_directly(lf, n)):
                return False
        return True

    def _moved_from(self, fn, i, guards):
        n = fn.nd(i)
        while n is not None:
            if n["k"] == "ctor" and n["a"]:
                n = fn.nd(n["a"][0])
            elif n["k"] == "call" and short(n.get("n", "")) == "std::move":
                n = fn.nd(n["a"][0])
            elif n["k"] == "ref":
                return n["var"] if n["var"] in guards else None
            else:
                return None
        return None

    def _record_calls(self, fn, e, n, cur, outs):
        P = self.P
        for t in P.targets(n):
            if t.is_lambda:
                outs.append((t.id, frozenset(cur)))
                continue
            pairs = []
            if "o" in n:
                pairs.append((P.sym(fn, n["o"]), ("this",)))
            elif n["k"] == "ctor":
                pass
            for p, a in zip(t.params, n["a"]):
                s = P.sym(fn, a)
                if s[0] not in ("k", "s", "none"):
                    pairs.append((s, ("v", p["var"])))
            # caller's own 'this' is another object in the callee unless passed
            held = set()
            for m, o in cur:
                held.add((m, o))
            if "o" in n:
                os_ = P.sym(fn, n["o"])
                if os_ != ("this",):
                    held = {(self._subst(m, ("this",), ("outer-this",)) if True else m, o) for m, o in held}
                    pairs = [(self._subst(a, ("this",), ("outer-this",)), b) for a, b in pairs]
            elif n["k"] == "ctor" or n.get("st") or True:
                if not n.get("st"):
                    held = {(self._subst(m, ("this",), ("outer-this",)), o) for m, o in held}
                    pairs = [(self._subst(a, ("this",), ("outer-this",)), b) for a, b in pairs]
            outs.append((t.id, self._translate(frozenset(held), pairs)))
        for l in self.sync_lambda_args(fn, n):
            if l in P.fns:
                outs.append((l, frozenset(cur)))

    # ------------------------------------------------------------- queries
    def held(self, fn, i):
        """mutex syms certainly held before node i; None if unreachable"""
        h = self.at.get((fn.id, i))
        return None if h is None else {m for m, _ in h}


def mutex_class(s):
    """Class::field identity of a mutex sym"""
    if s[0] == "f":
        return s[2]
    if s[0] == "g":
        return s[1]
    if s[0] == "v":
        return "local:" + s[1]
    if s[0] == "i":
        return mutex_class(s[1])
    if s[0] == "process-lock":
        return "process-lock"
    return show(s)

"""Interprocedural path exploration of the exported control-flow graphs.

`Engine.run(fn)` explores every path of `fn` over the finite product
 (CFG block) x (automaton state) x (live automatic objects) x (known booleans),
descending into callees that contain relevant nodes (helper functions,
virtual overrides, lambdas passed to and called by higher-order functions,
destructors of automatic objects) with summaries memoised per
(function, symbolic environment, automaton state)."""
from .model import short, strip_t, walk, SMART

SYNC_STD = {"std::for_each", "std::find_if", "std::sort", "std::remove_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::list::sort", "std::vector::sort",
            "std::call_once", "std::list::remove_if", "std::stable_sort", "std::transform", "std::accumulate", "std::partition"}


class Ctx:
    __slots__ = ("eng", "fn", "env", "stack", "node", "line")

    def __init__(self, eng, fn, env, stack):
        self.eng, self.fn, self.env, self.stack = eng, fn, env, stack
        self.node = None
        self.line = fn.line

    def sym(self, i):
        return self.eng.P.sym(self.fn, i, self.env, 0, self.eng.A.expand)

    def where(self):
        return "%s:%s (%s)" % (self.fn.file, self.line, self.fn.short or self.fn.id)

    def path(self):
        return [s for s in self.stack] + [self.where()]


class Automaton:
    """Override what is needed.  Every handler returns None (state unchanged)
    or an iterable of successor states (empty = the path is cut)."""
    name = "automaton"
    expand = True   # locals defined once stand for their initialiser

    def __init__(self):
        self.violations = {}
        self.instances = set()

    def initial(self):
        return ()

    # node-level relevance: functions without relevant nodes are not entered
    def relevant(self, fn, i, n):
        return False

    def relevant_dtor(self, fn, e):
        return False

    def enter_always(self, fn):
        return False

    def never_enter(self, fn):
        return False

    def on_call(self, st, ctx, n, name, recv, args):
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        return None

    def on_branch(self, st, ctx, facts):
        return None

    def on_access(self, st, ctx, n, s, mode):
        return None

    def on_dtor(self, st, ctx, e, s):
        return None

    def on_bind(self, st, ctx, var, typ, s):
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        return None

    def on_return(self, st, ctx, n, s):
        return None

    def on_throw(self, st, ctx, n):
        return None

    def on_catch(self, st, ctx, t):
        return None

    def on_init(self, st, ctx, e, s):
        return None

    def on_leave(self, st, ctx, kind):
        return None

    def ignore_exc(self, ctx, n, name):
        """exceptions leaving this call are outside the rule (stated as an assumption)"""
        return False

    def report(self, ctx, key, msg):
        k = (ctx.fn.short, ctx.line, key)
        if k not in self.violations:
            self.violations[k] = {"where": ctx.where(), "msg": msg, "key": key, "path": ctx.path(), "fn": ctx.fn.short}


class Engine:
    MAXSTATES = 60000

    def __init__(self, prog, aut, throw=True, follow_dtors=True, want_access=False, virtual=True):
        self.P = prog
        self.A = aut
        self.throw = throw
        self.want_access = want_access
        self.follow_dtors = follow_dtors
        self.memo = {}
        self.inprog = {}
        self.rel = self._relevance()
        self.nstates = 0
        self.entered = set()
        self._parents = {}
        self._prep = {}

    # -------------------------------------------------------------- relevance
    def _relevance(self):
        P, A = self.P, self.A
        rel = set()
        for f in P.fns.values():
            if A.never_enter(f):
                continue
            if A.enter_always(f):
                rel.add(f.id)
                continue
            for i in f.live_nodes():
                if A.relevant(f, i, f.nodes[i]):
                    rel.add(f.id)
                    break
            else:
                for b in f.blocks:
                    for e in b["el"]:
                        if isinstance(e, dict) and A.relevant_dtor(f, e):
                            rel.add(f.id)
                            break
                    else:
                        continue
                    break
        self.direct = set(rel)
        callers = P.callers
        work = list(rel)
        while work:
            x = work.pop()
            fx = P.fns[x]
            up = [c.id for c, _ in callers.get(x, ())]
            # a lambda makes the function that creates it relevant
            o = P.lambda_owner.get(x)
            if o:
                up.append(o)
            for u in up:
                if u in P.fns and u not in rel and not A.never_enter(P.fns[u]):
                    rel.add(u)
                    work.append(u)
        return rel

    # -------------------------------------------------------------- access mode
    def access_mode(self, fn, i):
        """how node i (an lvalue path) is used: r, w, rw, a(ddress), c(onst call)"""
        n = fn.nodes[i]
        if n.get("rd"):
            return "r"
        cur = i
        guard = 0
        while guard < 12:
            guard += 1
            p = fn.parents.get(cur)
            if p is None:
                return "r"
            pi, role = p
            if pi == -2:
                return "r"
            pn = fn.nodes[pi]
            k = pn["k"]
            if k == "as" and role[0] == "L":
                return "w" if pn["op"] == "=" else "rw"
            if k == "un" and pn["op"] in ("++", "--", "p++", "p--"):
                return "rw"
            if k == "un" and pn["op"] == "&":
                return "a"
            if k == "un" and pn["op"] == "*":
                return "r"
            if k == "mem":
                if pn.get("ar"):
                    return "r"
                if pn.get("rd"):
                    return "r"
                cur = pi
                continue
            if k == "idx" and role[0] == "ibase":
                if pn.get("rd"):
                    return "r"
                cur = pi
                continue
            if k in ("call", "ctor"):
                if role[0] == "obj":
                    op = pn.get("op")
                    if op in ("->", "*") and strip_t(n.get("t", "")) in SMART:
                        return "r"
                    return "r" if pn.get("cm") else "w" if op == "=" else "rw"
                if role[0] == "arg":
                    pk = pn.get("pk", "")
                    j = role[1]
                    if pn.get("op") and pn.get("o") is None and "pk" in pn:
                        pass
                    c = pk[j] if j < len(pk) else "v"
                    if c == "r":
                        return "rw"
                    if c == "m":
                        return "rw" if not pn.get("nt") or True else "r"
                    return "r"
                return "r"
            if k == "decl":
                v = pn["d"][role[1]]
                t = v["t"]
                if t.endswith("&") and not t.startswith("const "):
                    return "ref"
                return "r"
            if k == "cond" and role[0] in ("T", "F"):
                cur = pi
                continue
            if k == "cast":
                cur = pi
                continue
            if k == "ret":
                t = fn.ret
                if t.endswith("&") and not t.startswith("const "):
                    return "ref"
                return "r"
            return "r"
        return "r"

    # -------------------------------------------------------------- exploration
    def run(self, fn, st=None, env=None):
        """explore from fn as a root; returns the set of outcomes"""
        if st is None:
            st = self.A.initial()
        return self._fn(fn, env or {}, st, ())

    def _envkey(self, env):
        return frozenset((k, v) for k, v in env.items())

    @staticmethod
    def _trim(s, d=0):
        if not isinstance(s, tuple):
            return s
        if d > 10:
            return ("…",)
        return tuple(Engine._trim(x, d + 1) if isinstance(x, tuple) else x for x in s)

    def _prepfn(self, fn):
        p = self._prep.get(fn.id)
        if p is None:
            tmps = set()
            dtv = {}
            for b in fn.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "dtor":
                        if "tmp" in e:
                            tmps.add(e["tmp"])
                            dtv[("t", e["tmp"])] = e
                        elif "var" in e:
                            dtv[("v", e["var"])] = e
            # boolean locals worth tracking
            bools = set()
            for n in fn.nodes:
                if n and n["k"] == "decl":
                    for v in n["d"]:
                        if v["t"] in ("bool", "const bool") and not v.get("st"):
                            bools.add(v["var"])
            for pr in fn.params:
                if pr["t"] in ("bool", "const bool"):
                    bools.add(pr["var"])
            p = (tmps, dtv, bools)
            self._prep[fn.id] = p
        return p

    def _fn(self, fn, env, st, stack):
        key = (fn.id, self._envkey(env), st)
        if key in self.memo:
            return self.memo[key]
        if key in self.inprog or len(stack) > 40:
            # recursion: assume the recursive call returns leaving the state alone
            return frozenset([("ret", st, None)])
        self.inprog[key] = True
        self.entered.add(fn.id)
        out = set()
        ctx = Ctx(self, fn, env, stack)
        tmps, dtv, bools = self._prepfn(fn)
        # path state: (aut state, live tuple, known frozenset, ret)
        b0 = frozenset()
        bv = {}
        for pr in fn.params:
            v = env.get(pr["var"])
            if pr["var"] in bools and v and v[0] == "k" and v[1] in ("0", "1"):
                bv[("b", pr["var"])] = v[1] == "1"
        start = (fn.entry, (st, (), frozenset(bv.items()), None))
        seen = {start}
        work = [start]
        while work:
            bid, ps = work.pop()
            if bid == fn.exit:
                out.add(("ret", ps[0], ps[3]))
                continue
            b = fn.bmap[bid]
            for nb, nps in self._block(fn, ctx, b, ps, out, tmps, dtv, bools):
                x = (nb, nps)
                if x not in seen:
                    seen.add(x)
                    self.nstates += 1
                    if len(seen) > self.MAXSTATES:
                        raise RuntimeError("state explosion in %s" % fn.short)
                    work.append(x)
        fin = set()
        for kind, s, r in out:
            ctx.line = fn.d.get("end", fn.line)
            ns = self.A.on_leave(s, ctx, kind)
            for t in ([s] if ns is None else ns):
                fin.add((kind, t, r))
        out = frozenset(fin)
        del self.inprog[key]
        self.memo[key] = out
        return out

    def _raise(self, fn, ctx, ps, ty, out, dtv):
        """exceptional continuation of path state ps thrown inside try ty;
        returns [(block, ps)]"""
        res = []
        st, live, known, ret = ps
        cur = ty
        while True:
            # destroy what was declared inside the try (or everything)
            inside = []
            keep = []
            for ent in live:
                e_ty = ent[2]
                isin = cur is None or cur < 0
                t = e_ty
                while not isin and t is not None and t >= 0:
                    if t == cur:
                        isin = True
                    t = fn.tries[t]["parent"]
                (inside if isin else keep).append(ent)
            states = [st]
            for ent in reversed(inside):
                ns = []
                e = dtv.get((ent[0], ent[1]))
                for s in states:
                    ns += self._dtor(fn, ctx, e, s, exceptional=True)
                states = ns
            if cur is None or cur < 0:
                for s in states:
                    out.add(("exc", s, None))
                return res
            t = fn.tries[cur]
            caught_all = False
            for h in t["h"]:
                if h["b"] >= 0:
                    for s in states:
                        r = self.A.on_catch(s, ctx, h["t"])
                        for s2 in ([s] if r is None else r):
                            res.append((h["b"], (s2, tuple(keep), known, ret)))
                tt = h["t"]
                if tt == "" or tt == -1 or strip_t(tt) == "std::exception":
                    caught_all = True
                    break
            if caught_all:
                return res
            live = tuple(keep)
            # propagate to the enclosing try with each state
            nxt = t["parent"]
            if len(states) != 1:
                for s in states[1:]:
                    res += self._raise(fn, ctx, (s, live, known, ret), nxt, out, dtv)
            if not states:
                return res
            st = states[0]
            cur = nxt

    def _dtor(self, fn, ctx, e, st, exceptional=False):
        """run the destructor element e; returns list of states"""
        if e is None:
            return [st]
        if "var" in e:
            s = ("v", e["var"])
            if ctx.env and e["var"] in ctx.env:
                s = ctx.env[e["var"]]
            # references/aliases: use the variable's own identity
        elif "tmp" in e:
            s = ("tmp", fn.id, e["tmp"])
        elif "fd" in e:
            s = ("f", ctx.env.get("this", ("this",)) if ctx.env else ("this",), short(e["fd"]))
        else:
            s = ("base", e.get("base"))
        sts = [st]
        r = self.A.on_dtor(st, ctx, e, s)
        if r is not None:
            sts = list(r)
        if not self.follow_dtors:
            return sts
        t = strip_t(e.get("t", ""))
        if t == "Cleanup" and "var" in e:
            lam = self._cleanup_lambda(fn, e["var"])
            if lam is not None:
                res = []
                for x in sts:
                    for kind, s2, _ in self._call_lambda(lam, ctx, x, ()):
                        res.append(s2)
                return list(dict.fromkeys(res))
        f = e.get("f")
        if f in self.rel and f in self.P.fns and self.P.fns[f].blocks:
            res = []
            env = {"this": self._trim(s)}
            for x in sts:
                for kind, s2, _ in self._fn(self.P.fns[f], env, x, ctx.stack + (ctx.where(),)):
                    res.append(s2)
            return list(dict.fromkeys(res))
        return sts

    def _cleanup_lambda(self, fn, var):
        for d in fn.defs.get(var, ()):
            if d[0] == "decl" and d[1] is not None and d[1] >= 0:
                st = [d[1]]
                while st:
                    i = st.pop()
                    n = fn.nodes[i]
                    if n["k"] == "lam":
                        return n["f"][0]
                    st += [c for c, _ in fn.children(n) if c is not None and c >= 0]
        return None

    def _call_lambda(self, lid, ctx, st, args):
        lf = self.P.fns.get(lid)
        if lf is None or lid not in self.rel:
            return [("ret", st, None)] + ([("exc", st, None)] if lf is not None and self.throw and self.P.may_throw(lf) else [])
        env = dict(ctx.env) if ctx.env else {}
        for p, a in zip(lf.params, args):
            env[p["var"]] = self._trim(a)
        return self._fn(lf, env, st, ctx.stack + (ctx.where(),))

    def _eval_known(self, fn, i, known):
        """truth value of condition node i from path knowledge, or None"""
        n = fn.nd(i)
        if n is None:
            return None
        if n["k"] == "lit" or "v" in n:
            try:
                return int(n.get("v")) != 0
            except (TypeError, ValueError):
                return None
        v = known.get(("n", i))
        if v is not None:
            return v
        if n["k"] == "un" and n["op"] == "!":
            r = self._eval_known(fn, n["s"], known)
            return None if r is None else not r
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            a = self._eval_known(fn, n["L"], known)
            b = self._eval_known(fn, n["R"], known)
            if n["op"] == "&&":
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            for x, y in ((n["L"], n["R"]), (n["R"], n["L"])):
                yn = fn.nd(y)
                if yn and yn["k"] == "lit" and "b" in yn:
                    a = self._eval_known(fn, x, known)
                    if a is not None:
                        return (a == yn["b"]) == (n["op"] == "==")
            return None
        if n["k"] == "ref":
            return known.get(("b", n["var"]))
        if n["k"] == "cast":
            return self._eval_known(fn, n["s"], known)
        if n["k"] == "call" and n.get("op") == "!" and "o" in n:
            r = self._eval_known(fn, n["o"], known)
            return None if r is None else not r
        return None

    def _learn(self, fn, i, pol, known):
        """record that condition node i has value pol; False if contradictory"""
        n = fn.nd(i)
        if n is None:
            return True
        if n["k"] == "un" and n["op"] == "!":
            return self._learn(fn, n["s"], not pol, known)
        if n["k"] == "cast":
            return self._learn(fn, n["s"], pol, known)
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            a = self._eval_known(fn, n["L"], known)
            if n["op"] == "&&":
                if pol:
                    return self._learn(fn, n["L"], True, known) and self._learn(fn, n["R"], True, known)
                if a is True:
                    return self._learn(fn, n["R"], False, known)
            else:
                if not pol:
                    return self._learn(fn, n["L"], False, known) and self._learn(fn, n["R"], False, known)
                if a is False:
                    return self._learn(fn, n["R"], True, known)
            return True
        if n["k"] == "ref" and n.get("vk") in ("l", "p"):
            tmps, dtv, bools = self._prepfn(fn)
            if n["var"] in bools:
                if known.get(("b", n["var"]), pol) != pol:
                    return False
                known[("b", n["var"])] = pol
        if n["k"] == "call":
            if known.get(("n", i), pol) != pol:
                return False
            known[("n", i)] = pol
        return True

    def _facts(self, fn, ctx, i, pol, known, out, depth=0):
        """atomic facts (sym, bool) of condition node i having value pol on
        this path, using what is already known about its operands"""
        n = fn.nd(i)
        if n is None:
            return
        if n["k"] == "un" and n["op"] == "!":
            return self._facts(fn, ctx, n["s"], not pol, known, out, depth)
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            a = self._eval_known(fn, n["L"], known)
            if (n["op"] == "&&") == pol:
                self._facts(fn, ctx, n["L"], pol, known, out, depth)
                self._facts(fn, ctx, n["R"], pol, known, out, depth)
            elif a is not None and a == (n["op"] == "&&"):
                self._facts(fn, ctx, n["R"], pol, known, out, depth)
            return
        s = ctx.sym(i)
        out += self.P.facts_of(s, pol)
        e = self.P.expand_calls(s)
        q = s
        if e != s:
            out += self.P.facts_of(e, pol)
            q = self.P.expand_pred(s)
        c = q
        while c[0] == "not":
            c = c[1]
        if q != s or c[0] == "o" and c[1] in ("&&", "||"):
            alts = self.P.cases_of(q, pol)
            if len(alts) == 1:
                out += alts[0]
            elif len(alts) <= 6:
                self._alts.append(alts)

    def _block(self, fn, ctx, b, ps, out, tmps, dtv, bools):
        """yield (succ block, path state)"""
        cur = [ps]
        res = []
        for e in b["el"]:
            nxt = []
            for p in cur:
                nxt += self._elem(fn, ctx, e, p, out, res, tmps, dtv, bools)
            cur = list(dict.fromkeys(nxt))
            if not cur:
                break
        if not cur:
            return res
        if b.get("nr"):
            return res
        succs = b["su"]
        tc = b.get("tc", -1)
        tk = b.get("tk")
        if tk == "TempDtorBranch":
            cand = []
            for s in succs:
                if s >= 0:
                    el = [e for e in fn.bmap[s]["el"]]
                    if el and isinstance(el[0], dict) and el[0]["k"] == "dtor" and "tmp" in el[0]:
                        cand.append((s, el[0]["tmp"]))
            for p in cur:
                go = [s for s in succs if s >= 0]
                if len(cand) == 1 and len(go) == 2:
                    # a temporary made in one arm of a condition is destroyed iff it exists
                    alive = any(x[:2] == ("t", cand[0][1]) for x in p[1])
                    go = [s for s in go if (s == cand[0][0]) == alive]
                for s in go:
                    res.append((s, p))
            return res
        if tk == "SwitchStmt":
            for p in cur:
                sv = ctx.sym(tc)
                cases = [fn.bmap[s]["case"] for s in succs if s >= 0 and "case" in fn.bmap[s]]
                for s in succs:
                    if s < 0:
                        continue
                    bb = fn.bmap[s]
                    fs = []
                    if "case" in bb:
                        fs.append((self.P.mkop("==", sv, ctx.sym(bb["case"]["lo"])), True))
                    else:
                        for c in cases:
                            fs.append((self.P.mkop("==", sv, ctx.sym(c["lo"])), False))
                    ctx.line = b.get("tl", ctx.line)
                    r = self.A.on_branch(p[0], ctx, fs)
                    for st in ([p[0]] if r is None else r):
                        res.append((s, (st, p[1], p[2], p[3])))
            return res
        if len(succs) == 2 and tc is not None and tc >= 0 and tk != "CXXTryStmt":
            logical = tk == "BinaryOperator" or tk == "ConditionalOperator"
            for p in cur:
                known0 = dict(p[2])
                val = self._eval_known(fn, tc, known0)
                for pol, s in ((True, succs[0]), (False, succs[1])):
                    if s < 0:
                        continue
                    if val is not None and val != pol:
                        continue
                    known = dict(known0)
                    cn = fn.nd(tc)
                    fs = []
                    self._alts = []
                    self._facts(fn, ctx, tc, pol, known0, fs)
                    alts = self._alts
                    if not self._learn(fn, tc, pol, known):
                        continue
                    if tk == "BinaryOperator":
                        known[("n", tc)] = pol
                    else:
                        # the full condition is consumed: forget per-node outcomes
                        for k in [k for k in known if k[0] == "n"]:
                            del known[k]
                    ctx.line = b.get("tl", ctx.line)
                    if cn is not None:
                        ctx.line = cn.get("l", ctx.line)
                    # a predicate function that says one of several things: one path each
                    for a in (alts[0] if len(alts) == 1 else [None]):
                        fs1, kn1 = fs, known
                        if a is not None:
                            # the case must agree with what is known of boolean variables
                            fs1, kn1, clash = fs + a, dict(known), False
                            for t, v in a:
                                if t[0] == "v" and t[1] in bools:
                                    clash |= kn1.get(("b", t[1]), v) != v
                                    kn1[("b", t[1])] = v
                            if clash:
                                continue
                        r = self.A.on_branch(p[0], ctx, fs1) if fs1 else None
                        for st in ([p[0]] if r is None else r):
                            res.append((s, (st, p[1], frozenset(kn1.items()), p[3])))
            return res
        for p in cur:
            for s in succs:
                if s >= 0:
                    res.append((s, p))
        return res

    def _elem(self, fn, ctx, e, ps, out, res, tmps, dtv, bools):
        st, live, known, ret = ps
        if isinstance(e, dict):
            ctx.line = e.get("l", ctx.line)
            if e["k"] == "dtor":
                if "var" in e:
                    k = ("v", e["var"])
                elif "tmp" in e:
                    k = ("t", e["tmp"])
                else:
                    return [(s, live, known, ret) for s in self._dtor(fn, ctx, e, st)]
                hit = None
                for j in range(len(live) - 1, -1, -1):
                    if live[j][:2] == k:
                        hit = j
                        break
                if hit is None:
                    return [ps]
                nl = live[:hit] + live[hit + 1:]
                return [(s, nl, known, ret) for s in self._dtor(fn, ctx, e, st)]
            if e["k"] == "init":
                s = ctx.sym(e["e"])
                r = self.A.on_init(st, ctx, e, s)
                return [(x, live, known, ret) for x in ([st] if r is None else r)]
            return [ps]
        n = fn.nodes[e]
        ctx.node = e
        ctx.line = n.get("l", ctx.line)
        k = n["k"]
        A = self.A
        if k in ("call", "ctor"):
            outs = self._call(fn, ctx, e, n, ps, out, res, dtv)
            if e in tmps:
                outs = [(s, tuple(x for x in l if x[:2] != ("t", e)) + (("t", e, n.get("ty", -1)),), kn, rt) for s, l, kn, rt in outs]
            return outs
        if k == "decl":
            cur = [(st, live, known)]
            for v in n["d"]:
                nx = []
                for s0, l0, k0 in cur:
                    if v.get("dt") and ("v", v["var"]) in dtv:
                        l0 = tuple(x for x in l0 if x[:2] != ("v", v["var"])) + (("v", v["var"], n.get("ty", -1)),)
                    kd = dict(k0)
                    if v["var"] in bools:
                        kd.pop(("b", v["var"]), None)
                        if v["init"] is not None and v["init"] >= 0:
                            val = self._eval_known(fn, v["init"], kd)
                            if val is not None:
                                kd[("b", v["var"])] = val
                    s = ctx.sym(v["init"]) if v["init"] is not None and v["init"] >= 0 else ("none",)
                    r = A.on_bind(s0, ctx, v["var"], v["t"], s)
                    for x in ([s0] if r is None else r):
                        nx.append((x, l0, frozenset(kd.items())))
                cur = nx
            return [(s0, l0, k0, ret) for s0, l0, k0 in cur]
        if k == "as":
            kd = known
            L = fn.nd(n["L"])
            if L and L["k"] == "ref" and L["var"] in bools:
                d = dict(known)
                d.pop(("b", L["var"]), None)
                val = self._eval_known(fn, n["R"], d)
                if val is not None and n["op"] == "=":
                    d[("b", L["var"])] = val
                kd = frozenset(d.items())
            r = A.on_assign(st, ctx, n, ctx.sym(n["L"]), ctx.sym(n["R"]), n["op"])
            return [(x, live, kd, ret) for x in ([st] if r is None else r)]
        if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            r = A.on_assign(st, ctx, n, ctx.sym(n["s"]), ("k", "1"), n["op"])
            return [(x, live, known, ret) for x in ([st] if r is None else r)]
        if k == "ret":
            s = ctx.sym(n["s"]) if n["s"] is not None and n["s"] >= 0 else ("none",)
            r = A.on_return(st, ctx, n, s)
            rv = None
            if n["s"] is not None and n["s"] >= 0:
                kd = dict(known)
                rv = self._eval_known(fn, n["s"], kd)
                if rv is None and s == ("k", "0"):
                    rv = False
                # `return a && b;` / `return cond;` of a bool predicate: split on the value
                if rv is None and strip_t(fn.ret) == "bool":
                    o2 = []
                    for pol in (True, False):
                        fs = []
                        self._alts = []
                        self._facts(fn, ctx, n["s"], pol, kd, fs)
                        alts = self._alts
                        # a predicate function that says one of several things: one path each
                        for a in (alts[0] if len(alts) == 1 else [[]]):
                            for x in ([st] if r is None else r):
                                r2 = A.on_branch(x, ctx, fs + a) if fs or a else None
                                for y in ([x] if r2 is None else r2):
                                    o2.append((y, live, frozenset(), pol))
                    return o2
            return [(x, live, known, rv) for x in ([st] if r is None else r)]
        if k == "throw":
            r = A.on_throw(st, ctx, n)
            for x in ([st] if r is None else r):
                res += self._raise(fn, ctx, (x, live, known, ret), n.get("ty", -1), out, dtv)
            return []
        if self.want_access and k in ("mem", "ref"):
            if k == "ref" and n.get("vk") not in ("g", "s", "l", "p"):
                return [ps]
            r = A.on_access(st, ctx, n, ctx.sym(e), self.access_mode(fn, e))
            return [(x, live, known, ret) for x in ([st] if r is None else r)]
        return [ps]

    def _call(self, fn, ctx, i, n, ps, out, res, dtv):
        st, live, known, ret = ps
        P, A = self.P, self.A
        name = short(n.get("n", "")) if "n" in n else "*indirect"
        args = tuple(ctx.sym(a) for a in n["a"])
        recv = ctx.sym(n["o"]) if "o" in n else None
        r = A.on_call(st, ctx, n, name, recv, args)
        sts = [st] if r is None else list(r)
        # a local that names a lambda is that lambda
        for k, a in enumerate(args):
            if a and a[0] == "v" and len(a) == 2:
                w = P.sym(fn, n["a"][k], ctx.env)
                if w[0] == "lam":
                    args = args[:k] + (w,) + args[k + 1:]
        outcomes = []  # (kind, state, retval)
        lam_target = None
        if n["k"] == "call":
            callee_sym = None
            if name == "std::function::operator()" or "ind" in n:
                callee_sym = recv if recv is not None else ctx.sym(n["ind"])
                if callee_sym and callee_sym[0] == "lam":
                    lam_target = callee_sym[1]
                elif callee_sym and callee_sym[0] == "fn":
                    c = P.by_short.get(callee_sym[1], [])
                    if c and c[0].blocks:
                        lam_target = c[0].id
        ts = []
        if lam_target:
            lf = P.fns.get(lam_target)
            if lf:
                ts = [lf]
        else:
            ts = P.targets(n)
        lam_args = [a[1] for a in args if a and a[0] == "lam" and a[1] in self.rel]
        ent = [t for t in ts if t.blocks and (t.id in self.rel or lam_args) and not A.never_enter(t)]
        where = ctx.where()
        for x in sts:
            if ent:
                for t in ent:
                    if t.is_lambda or lam_target:
                        env = dict(ctx.env) if ctx.env else {}
                    else:
                        env = {}
                        if recv is not None:
                            env["this"] = self._trim(recv)
                        elif n["k"] == "ctor":
                            env["this"] = self._objsym(fn, ctx, i)
                        elif t.d.get("ctor"):
                            env["this"] = ("made", fn.id, i)
                    for p, a in zip(t.params, args):
                        env[p["var"]] = self._trim(a)
                    line = ctx.line
                    for o in self._fn(t, env, x, ctx.stack + (where,)):
                        outcomes.append(o)
                    ctx.line = line
                skipped = [t for t in ts if t not in ent]
                if skipped:
                    outcomes.append(("ret", x, None))
                    if self.throw and any(P.may_throw(t) for t in skipped):
                        outcomes.append(("exc", x, None))
            else:
                outcomes.append(("ret", x, None))
                if self.throw:
                    if ts:
                        if any(P.may_throw(t) for t in ts):
                            outcomes.append(("exc", x, None))
                    elif P.node_throws_directly(fn, n):
                        outcomes.append(("exc", x, None))
                if lam_args and not ts:
                    if name in SYNC_STD or name.rsplit("::", 1)[-1] in ("sort", "for_each", "find_if", "any_of", "all_of", "none_of", "remove_if", "count_if"):
                        for la in lam_args:
                            outcomes += list(self._call_lambda(la, ctx, x, ()))
                    elif name.startswith("std::condition_variable") and name.rsplit("::", 1)[-1] in ("wait", "wait_for", "wait_until"):
                        # wait(lock, pred) returns only after pred() was true
                        timed = name.rsplit("::", 1)[-1] != "wait"
                        o2 = [o for la in lam_args for o in self._call_lambda(la, ctx, x, ())]
                        if not timed:
                            outcomes = [o for o in outcomes if o[0] != "ret"]
                            o2 = [o for o in o2 if o[0] != "ret" or o[2] is not False]
                        outcomes += o2
        # normal outcomes continue, exceptional ones unwind
        cont = []
        seen = set()
        for kind, s, rv in outcomes:
            if (kind, s, rv) in seen:
                continue
            seen.add((kind, s, rv))
            if kind == "exc":
                if self.throw and not A.ignore_exc(ctx, n, name):
                    res += self._raise(fn, ctx, (s, live, known, ret), n.get("ty", -1), out, dtv)
                continue
            kd = known
            if rv is not None:
                d = dict(known)
                d[("n", i)] = rv
                kd = frozenset(d.items())
            elif ("n", i) in dict(known):
                d = dict(known)
                d.pop(("n", i), None)
                kd = frozenset(d.items())
            r2 = A.after_call(s, ctx, n, name, recv, args)
            ys = [s] if r2 is None else list(r2)
            if n.get("op") == "=" and recv is not None and args:
                zs = []
                for y in ys:
                    r3 = A.on_assign(y, ctx, n, recv, args[0], "=")
                    zs += [y] if r3 is None else list(r3)
                ys = zs
            for y in ys:
                # calls that may rebind a tracked boolean
                cont.append((y, live, kd, ret))
        # out-args invalidate tracked booleans
        pk = n.get("pk", "")
        inval = set()
        for j, a in enumerate(n["a"]):
            an = fn.nd(a)
            if an and an["k"] == "ref" and j < len(pk) and pk[j] in "r":
                inval.add(("b", an["var"]))
        lam_nodes = [fn.nd(a) for a in n["a"]]
        for an in lam_nodes:
            st2 = [an] if an else []
            while st2:
                y = st2.pop()
                if y["k"] == "lam":
                    for l in y["f"]:
                        lf = P.fns.get(l)
                        if lf:
                            for v, ds in lf.defs.items():
                                if any(d[0] in ("as", "mod", "outarg") for d in ds):
                                    inval.add(("b", v))
                else:
                    st2 += [fn.nodes[c] for c, _ in fn.children(y) if c is not None and c >= 0]
        if inval:
            cont = [(s, l, frozenset(x for x in kn if x[0] not in inval), rt) for s, l, kn, rt in cont]
        return list(dict.fromkeys(cont))

    def _objsym(self, fn, ctx, i):
        """identity of the object a constructor node initialises"""
        cur = i
        for _ in range(6):
            p = fn.parents.get(cur)
            if p is None:
                break
            pi, role = p
            if pi == -2:
                return ("f", (ctx.env or {}).get("this", ("this",)), short(role[1] or ""))
            pn = fn.nodes[pi]
            if pn["k"] == "decl":
                return ("v", pn["d"][role[1]]["var"])
            if pn["k"] in ("ctor",) and (pn.get("cp") or pn.get("mv")):
                cur = pi
                continue
            break
        return ("tmp", fn.id, i)

"""Shared machinery of the rule modules: reachability, value origins,
call-site queries, path automata and the caller-climbing driver."""
import re
from collections import defaultdict
from .model import short, strip_t, walk, has, show, SMART
from .engine import Automaton, Engine
from .facts import AnalysisBroken
from .locks import Locks, mutex_class


class An:
    """one analysis session over the facts of the current tree"""

    def __init__(self, P, tier="quick"):
        self.P = P
        self.tier = tier
        self._L = None
        self._reach = None
        self._fw = None
        self._vown = None
        self._org = {}

    @property
    def L(self):
        if self._L is None:
            self._L = Locks(self.P)
        return self._L

    # ---------------------------------------------------------- reachability
    @property
    def reach(self):
        """ids of functions the daemon can run: from main, global initialisers,
        through calls, destructors, created lambdas, address-taken functions"""
        if self._reach is not None:
            return self._reach
        P = self.P
        work = [f.id for f in P.fns.values() if f.short in ("main", "bees_main")]
        seen = set(work)

        def add(x):
            if x in P.fns and x not in seen:
                seen.add(x)
                work.append(x)
        for f in P.fns.values():
            # methods reachable by the language only: conversion/virtual handled at calls
            if f.d.get("globinit"):
                add(f.id)
        while work:
            f = P.fns[work.pop()]
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] in ("call", "ctor"):
                    for t in P.targets(n):
                        add(t.id)
                elif n["k"] == "lam":
                    for l in n["f"]:
                        add(l)
                elif n["k"] == "ref" and n.get("vk") == "f" and n.get("f"):
                    add(n["f"])
            for b in f.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "dtor" and e.get("f"):
                        for t in P.overriders(e["f"]):
                            add(t.id)
        # destructors of classes whose constructor is reachable (shared_ptr deleters)
        ctor_cls = {P.fns[x].cls for x in seen if P.fns[x].d.get("ctor")}
        for f in list(P.fns.values()):
            if f.d.get("dtor") and f.cls in ctor_cls and f.id not in seen:
                seen.add(f.id)
                work.append(f.id)
        while work:
            f = P.fns[work.pop()]
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] in ("call", "ctor"):
                    for t in P.targets(n):
                        add(t.id)
                elif n["k"] == "lam":
                    for l in n["f"]:
                        add(l)
                elif n["k"] == "ref" and n.get("vk") == "f" and n.get("f"):
                    add(n["f"])
            for b in f.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "dtor" and e.get("f"):
                        for t in P.overriders(e["f"]):
                            add(t.id)
        self._reach = seen
        return seen

    def fns(self, pred=None, reach=True):
        for f in self.P.fns.values():
            if reach and f.id not in self.reach:
                continue
            if pred is None or pred(f):
                yield f

    def sites(self, names, reach=True, noise=False):
        """[(fn, idx, node)] calls/ctors whose short name is in names (exact, or
        '*::x' for any class)"""
        exact = {x for x in names if not x.startswith("*::")}
        anyc = {x[3:] for x in names if x.startswith("*::")}
        out = []
        for f in self.P.fns.values():
            if reach and f.id not in self.reach:
                continue
            for i, n in f.calls():
                nm = short(n.get("n", ""))
                if not nm:
                    continue
                if nm in exact or nm.rsplit("::", 1)[-1] in anyc:
                    if not noise and f.is_noise(i):
                        continue
                    out.append((f, i, n))
        return out

    # ---------------------------------------------------------- field writes
    @property
    def field_writes(self):
        """field short name -> [(fn, rhs node idx or None, kind, node idx)]"""
        if self._fw is None:
            fw = defaultdict(list)
            for f in self.P.fns.values():
                for i in range(len(f.nodes)):
                    n = f.nodes[i]
                    if not n:
                        continue
                    k = n["k"]
                    if k == "as":
                        L = self._lv(f, n["L"])
                        if L:
                            fw[L].append((f, n["R"], "as" if n["op"] == "=" else "mod", i))
                    elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
                        L = self._lv(f, n["s"])
                        if L:
                            fw[L].append((f, None, "mod", i))
                    elif k == "call" and n.get("op") == "=" and "o" in n:
                        L = self._lv(f, n["o"])
                        if L:
                            fw[L].append((f, n["a"][0], "as", i))
                    elif k == "call" or k == "ctor":
                        pk = n.get("pk", "")
                        for j, a in enumerate(n.get("a", ())):
                            if j < len(pk) and pk[j] == "r":
                                an = f.nd(a)
                                # look through casts
                                L = self._lv(f, a)
                                if L:
                                    fw[L].append((f, None, "outarg", i))
                        if k == "call" and "o" in n and not n.get("cm") and n.get("op") != "=":
                            L = self._lv(f, n["o"])
                            if L:
                                fw[L].append((f, None, "method", i))
                for b in f.blocks:
                    for e in b["el"]:
                        if isinstance(e, dict) and e["k"] == "init" and e.get("fd"):
                            fw[short(e["fd"])].append((f, e["e"], "init", e["e"]))
            self._fw = fw
        return self._fw

    def _lv(self, f, i):
        n = f.nd(i)
        while n is not None and n["k"] == "cast":
            n = f.nd(n["s"])
        if n is None:
            return None
        if n["k"] == "un" and n["op"] in ("*", "&"):
            n = f.nd(n["s"])
            if n is None:
                return None
        if n["k"] == "mem":
            return short(n["fd"])
        if n["k"] == "ref" and n.get("vk") == "g":
            return "::" + short(n["var"])
        if n["k"] == "ref" and n.get("vk") == "s":
            return "static " + n["var"]
        return None

    # ---------------------------------------------------------- var owners
    @property
    def var_owner(self):
        """var id -> (fn, 'param', index) or (fn, 'local')"""
        if self._vown is None:
            m = {}
            for f in self.P.fns.values():
                for j, p in enumerate(f.params):
                    m[p["var"]] = (f, "param", j)
                for n in f.nodes:
                    if n and n["k"] == "decl":
                        for v in n["d"]:
                            m.setdefault(v["var"], (f, "local", v))
                            for b in v.get("bind", ()):
                                m.setdefault(b, (f, "bind", v))
            self._vown = m
        return self._vown

    # ---------------------------------------------------------- origins
    def origins(self, fn, i, env=None, terminal=None, limit=400):
        """set of terminal syms the value of node i may come from, looking
        through locals, parameters (all callers), fields (all writes), returned
        values of repository functions, conditionals.  flow-insensitive."""
        return self.origins_sym(self.P.sym(fn, i, env), terminal, limit)

    def origins_sym(self, s0, terminal=None, limit=4000):
        P = self.P
        out = set()
        seen = set()
        work = [s0]
        n = 0
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            n += 1
            if n > limit:
                out.add(("?", "limit"))
                break
            if terminal and terminal(s):
                out.add(s)
                continue
            nx = self._step(s)
            if nx is None:
                out.add(s)
            else:
                work += nx
        return out

    def roots(self, s0, limit=4000):
        """leaf syms a value is computed from (data dependence): standard
        library calls, operators and constructors are transparent"""
        out = set()
        seen = set()
        work = [s0]
        while work and len(seen) < limit:
            s = work.pop()
            if not isinstance(s, tuple) or not s or s in seen:
                continue
            seen.add(s)
            nx = self._step(s)
            if nx is not None:
                work += nx
                if s[0] == "f":
                    work.append(s[1])
                continue
            if s[0] == "c" and len(s) == 4:
                if not s[1].startswith("std::"):
                    out.add(s)
                if s[2] is not None:
                    work.append(s[2])
                work += list(s[3])
            elif s[0] in ("o", "i", "ctor", "il", "not"):
                for x in s[1:]:
                    if isinstance(x, tuple):
                        if x and isinstance(x[0], tuple):
                            work += list(x)
                        else:
                            work.append(x)
            elif s[0] == "f":
                out.add(s)
                work.append(s[1])
            elif s[0] == "out":
                # filled in by a call: depends on its other arguments
                out.add(s)
            else:
                out.add(s)
        return out

    def _step(self, s):
        """one level of backward resolution; None = terminal"""
        P = self.P
        k = s[0]
        if k == "v":
            ow = self.var_owner.get(s[1])
            if ow is None:
                return None
            f, kind, x = ow
            if kind == "param":
                res = []
                if f.is_lambda:
                    return None
                if f.id not in self.reach:
                    return []
                for c, i in P.callers.get(f.id, ()):
                    if i < 0 or c.id not in self.reach:
                        continue
                    a = c.nodes[i].get("a", ())
                    if x < len(a):
                        res.append(P.sym(c, a[x]))
                # the parameter may also be reassigned
                res += self._local_defs(f, s[1])
                return res if res else None
            if kind == "local":
                r = self._local_defs(f, s[1])
                return r if r else None
            if kind == "bind":
                j = x.get("init", -1)
                if j is not None and j >= 0:
                    return None
            return None
        if k == "f":
            # a member of a constructed pair etc. is resolved by sym(); field: all writes
            ws = self.field_writes.get(s[2])
            if not ws:
                return None
            res = []
            for f, r, kind, i in ws:
                if f.id not in self.reach:
                    continue
                if kind in ("as", "init") and r is not None and r >= 0:
                    res.append(P.sym(f, r))
                elif kind == "outarg":
                    n = f.nodes[i]
                    res.append(("out", short(n.get("n", "")), f.id, i))
            return res if res else None
        if k == "c" and len(s) == 4:
            cands = [f for f in P.by_short.get(s[1], []) if f.blocks and len(f.params) == len(s[3])]
            if not cands:
                return None
            res = []
            for f in cands:
                fs = [f]
                for o in P.over.get(f.id, ()):
                    if o in P.fns and P.fns[o].blocks:
                        fs.append(P.fns[o])
                for g in fs:
                    env = {}
                    if s[2] is not None:
                        env["this"] = s[2]
                    for p, a in zip(g.params, s[3]):
                        env[p["var"]] = a
                    for i in g.live_nodes():
                        if g.nodes[i]["k"] == "ret" and g.nodes[i]["s"] is not None and g.nodes[i]["s"] >= 0:
                            res.append(P.sym(g, g.nodes[i]["s"], env))
            return res if res else None
        if k == "o" and s[1] == "?:":
            return [s[3], s[4]]
        if k == "ctor" and len(s[2]) == 1 and (s[1].rsplit("::", 1)[-1] in ("Fd", "ResourceHandle", "basic_string", "BeesAddress", "unique_ptr")):
            return [s[2][0]]
        if k == "o" and s[1] in ("=",) and len(s) == 4:
            return [s[3]]
        return None

    def _local_defs(self, f, var):
        P = self.P
        res = []
        fs = [f] + P.lambdas_of(f.id)
        o = f
        for g in fs:
            for d in g.defs.get(var, ()):
                kind, j, x = d[0], d[1], d[2]
                if kind in ("decl", "as") and j is not None and j >= 0:
                    res.append(P.sym(g, j))
                elif kind == "method" and x.get("op") == "=":
                    res.append(P.sym(g, x["a"][0]))
                elif kind == "outarg":
                    res.append(("out", short(x.get("n", "")), g.id, j))
                elif kind == "mod":
                    res.append(("mod", g.id, x.get("l", 0)))
        return res

    # ---------------------------------------------------------- copies
    def canon(self, s, depth=0):
        """replace locals declared as a copy of another path by that path"""
        if depth > 8 or not isinstance(s, tuple) or not s:
            return s
        if s[0] == "v":
            ow = self.var_owner.get(s[1])
            if ow and ow[1] == "local":
                f = ow[0]
                j = ow[2].get("init", -1)
                if j is not None and j >= 0 and not any(d[0] == "as" or (d[0] == "method" and d[2].get("op") == "=") for d in f.defs.get(s[1], ())):
                    t = self.P.sym(f, j)
                    if t != s and t[0] in ("v", "f", "i", "g"):
                        return self.canon(t, depth + 1)
            return s
        return tuple(self.canon(x, depth) if isinstance(x, tuple) else x for x in s)

    def kval(self, s):
        """numeric value of a literal or of a constant global, or None"""
        k = konst(s)
        if k is not None:
            return k
        try:
            if s and s[0] == "k":
                return float(s[1])
            if s and s[0] in ("g", "v"):
                g = self.P.globals.get(s[1])
                if g and g.get("const") and g.get("v") is not None:
                    return float(g["v"])
        except ValueError:
            pass
        return None

    def where(self, f, i=None):
        l = f.nodes[i].get("l", f.line) if i is not None and i >= 0 else f.line
        return "%s:%s (%s)" % (f.file, l, f.short or f.id)

    def container_of(self, s, depth=0):
        """the container a range-for / iterator variable's element comes from"""
        while s and s[0] == "ctor" and len(s[2]) == 1:
            s = s[2][0]
        if not s or s[0] not in ("v", "f") or depth > 4:
            return None
        if s[0] == "f":
            return self.container_of(s[1], depth + 1) if s[2].startswith("std::") else None
        ow = self.var_owner.get(s[1])
        if not ow or ow[1] not in ("local", "bind"):
            return None
        j = ow[2].get("init", -1)
        if j is None or j < 0:
            return None
        t = self.P.sym(ow[0], j)
        while t and t[0] == "ctor" and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "c" and last(t[1]) in ("begin", "cbegin", "rbegin", "crbegin", "front", "back", "find", "lower_bound"):
            return t[2] if t[2] is not None else (t[3][0] if t[3] else None)
        if t[0] == "v":
            return self.container_of(t, depth + 1)
        return None

    @property
    def algo_lambdas(self):
        """ids of lambdas handed directly to std algorithms"""
        if getattr(self, "_algl", None) is None:
            m = {}
            for f in self.P.fns.values():
                for i, n in f.calls():
                    nm = short(n.get("n", ""))
                    if nm.startswith("std::") and last(nm) in ("any_of", "all_of", "none_of", "find_if", "count_if", "remove_if", "for_each", "sort", "copy_if"):
                        for a in n.get("a", ()):
                            t = self.P.sym(f, a)
                            if t[0] == "lam":
                                m[t[1]] = (f, i, last(nm))
            self._algl = m
        return self._algl

    # ---------------------------------------------------------- driver
    def callers_of(self, fn):
        """functions that run fn as part of their own execution"""
        P = self.P
        r = {c.id: c for c, i in P.callers.get(fn.id, ())}
        if fn.is_lambda:
            o = P.lambda_owner.get(fn.id)
            if o in P.fns:
                r[o] = P.fns[o]
        for b in fn.d.get("over", ()):
            for c, i in P.callers.get(b, ()):
                r[c.id] = c
        r.pop(fn.id, None)
        return [c for c in r.values() if c.id in self.reach]

    def owner_of(self, f):
        """the named function a lambda was written in"""
        k = 0
        while f.is_lambda and self.P.lambda_owner.get(f.id) in self.P.fns and k < 8:
            f = self.P.fns[self.P.lambda_owner[f.id]]
            k += 1
        return f

    def at_callers(self, f, i, syms, good, levels=3):
        """[(function, node, expressions, good)]: the expressions at node i of f,
        or - while good() rejects them and they depend on f's parameters - what
        they are at each call of f"""
        if good(syms) or levels == 0:
            return [(f, i, syms, good(syms))]
        o = self.owner_of(f)
        params = {("v", p["var"]): j for j, p in enumerate(o.params)}
        used = {x for s in syms for x in subterms(s) if x in params}
        sites = [(c, k) for c, k in self.P.callers.get(o.id, ()) if k >= 0 and c.id in self.reach and c.id != o.id]
        if not used or not sites or any(p in o.defs and any(d[0] in ("as", "mod") for d in o.defs[p]) for _, p in used):
            return [(f, i, syms, False)]
        out = []
        for c, k in sites:
            a = c.nodes[k].get("a", ())
            new = list(syms)
            for x in used:
                if params[x] < len(a):
                    v = self.P.sym(c, a[params[x]])
                    new = [replace_term(s, x, v) for s in new]
            out += self.at_callers(c, k, new, good, levels - 1)
        return out

    def prove(self, fn, mk, levels=3, throw=True, want_access=False, init=None, keep=None, follow_dtors=True):
        """explore fn with mk(); if that reports violations and fn has callers,
        the callers may establish what fn relies on: every caller must then be
        clean when explored as the root.  Returns (automaton, engine, violations)"""
        a = mk()
        e = Engine(self.P, a, throw=throw, want_access=want_access, follow_dtors=follow_dtors)
        e.run(fn, a.initial() if init is None else init)
        v = list(a.violations.values())
        if keep:
            v = [x for x in v if keep(x)]
        if not v or levels <= 0:
            return a, e, v
        cs = self.callers_of(fn)
        if not cs:
            return a, e, v
        for c in cs:
            try:
                ca, ce, cv = self.prove(c, mk, levels - 1, throw, want_access, init, keep, follow_dtors)
            except RuntimeError:
                # the caller is too large to be explored: it proves nothing
                return a, e, v
            # the caller counts only if it really ran fn
            if fn.id not in ce.entered:
                return a, e, v
            if cv:
                return a, e, cv
        return a, e, []

    def explore(self, roots, mk, throw=True, want_access=False):
        """explore from the given roots with a single automaton instance"""
        a = mk()
        e = Engine(self.P, a, throw=throw, want_access=want_access)
        for r in roots:
            e.run(r, a.initial())
        return a, e

    def roots_for(self, fns):
        """outermost functions: climb from fns to functions without callers"""
        P = self.P
        out = {}
        seen = set()
        st = list(fns)
        while st:
            f = st.pop()
            if f.id in seen:
                continue
            seen.add(f.id)
            cs = self.callers_of(f)
            if not cs:
                out[f.id] = f
            st += cs
        return list(out.values())


# ---------------------------------------------------------------- automata
class NameAut(Automaton):
    """relevance by called names and accessed fields"""
    names = ()
    fields = ()

    def __init__(self):
        super().__init__()
        self._ex = {x for x in self.names if not x.startswith("*::")}
        self._any = {x[3:] for x in self.names if x.startswith("*::")}
        self._fl = set(self.fields)

    def is_named(self, name):
        return name in self._ex or name.rsplit("::", 1)[-1] in self._any

    def relevant(self, fn, i, n):
        k = n["k"]
        if k in ("call", "ctor"):
            nm = short(n.get("n", ""))
            return bool(nm) and self.is_named(nm) and not fn.is_noise(i)
        if k == "mem":
            return short(n["fd"]) in self._fl or short(n["fd"]).rsplit("::", 1)[-1] in self._fl
        return False


class Guarded(NameAut):
    """every matching site must be preceded, on every path, by an established
    guard.  State: frozenset of established tokens.
      site(ctx, n, name, recv, args) -> None or a list of (needed predicate, key, message)
      guard(ctx, sym, pol)           -> None or token
      kill(st, ctx, ...)             -> optional"""

    def initial(self):
        return frozenset()

    def site(self, ctx, n, name, recv, args):
        return None

    def guard(self, ctx, s, pol):
        return None

    def establish(self, ctx, n, name, recv, args):
        """tokens established by a (normally returning) call"""
        return ()

    def on_branch(self, st, ctx, facts):
        add = set()
        for s, p in facts:
            t = self.guard(ctx, s, p)
            if t:
                if isinstance(t, list):
                    add |= set(t)
                else:
                    add.add(t)
        if add:
            return [st | add]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        need = self.site(ctx, n, name, recv, args)
        if need:
            self.instances.add((ctx.fn.id, ctx.node))
            for ok, key, msg in need:
                if not ok(st):
                    self.report(ctx, key, msg)
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        t = self.establish(ctx, n, name, recv, args)
        if t:
            return [st | frozenset(t)]
        return None


class Tok(Guarded):
    """Guarded whose tokens die when a variable they mention is rebound"""

    def kill_var(self, st, s):
        r = frozenset(t for t in st if not has(t, lambda x: x == s))
        return r

    def keeps(self, t):
        """tokens that survive rebinding"""
        return False

    def _kill(self, st, s):
        if s[0] != "v":
            return None
        r = frozenset(t for t in st if self.keeps(t) or not has(t, lambda x: x == s))
        return r if r != st else None

    def on_bind(self, st, ctx, var, typ, s):
        r = self._kill(st, ("v", var))
        return [r] if r is not None else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        r = self._kill(st, lhs)
        return [r] if r is not None else None

    def on_call(self, st, ctx, n, name, recv, args):
        if n.get("op") in ("++", "--") and recv is not None:
            r = self._kill(st, recv)
            if r is not None:
                return [r]
        return super().on_call(st, ctx, n, name, recv, args)


class Events(NameAut):
    """finite-state protocol over labelled calls"""

    def label(self, ctx, n, name, recv, args):
        return None

    def delta(self, st, ev, ctx):
        return st

    def on_call(self, st, ctx, n, name, recv, args):
        if ctx.fn.is_noise(ctx.node):
            return None
        ev = self.label(ctx, n, name, recv, args)
        if ev is None:
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        r = self.delta(st, ev, ctx)
        return r if isinstance(r, list) else [r]


def subterms(s):
    yield s
    for x in s:
        if isinstance(x, tuple):
            yield from subterms(x)


def replace_term(s, a, b):
    if s == a:
        return b
    return tuple(replace_term(x, a, b) if isinstance(x, tuple) else x for x in s)


def last(name):
    return name.rsplit("::", 1)[-1]


def konst(s):
    """integer value of a constant sym or None"""
    if s and s[0] == "k":
        try:
            return int(s[1], 0)
        except (TypeError, ValueError):
            return None
    return None


class ValueTrack(NameAut):
    """typestate of values produced by some calls.  State: frozenset of
    (holder sym, kind, frozenset(checks)).
      source(ctx, n, name, recv, args) -> kind or None
      check(ctx, fact sym, pol, holder) -> name of a check established for holder, or None
      escape(ctx, kind, checks, holder, root): called when the value leaves the root function"""

    def initial(self):
        return frozenset()

    def source(self, ctx, n, name, recv, args):
        return None

    def check(self, ctx, s, pol, holder):
        return None

    def escape(self, ctx, kind, checks, holder):
        pass

    RET = ("ret",)
    # entries: (holder sym, kind, frozenset(checks), origin); entries with one
    # origin are aliases of one value

    def after_call(self, st, ctx, n, name, recv, args):
        k = self.source(ctx, n, name, recv, args)
        me = None
        if k:
            self.instances.add((ctx.fn.id, ctx.node))
            me = self._peel(ctx.sym(ctx.node))
            org = (ctx.fn.id, ctx.node)
            return [frozenset((h, kk, c, ("old", org) if o == org else o) for h, kk, c, o in st if h != me) | {(me, k, frozenset(), org)}]
        if any(x[0] == self.RET for x in st):
            me = self._peel(ctx.sym(ctx.node))
            return [frozenset((me if h == self.RET else h, k, c, o) for h, k, c, o in st if h != me)]
        return None

    @staticmethod
    def _peel(t):
        while t and t[0] == "ctor" and len(t[2]) == 1:
            t = t[2][0]
        return t

    def _val(self, st, s):
        """tracked entries denoted by value sym s"""
        t = self._peel(s)
        return [e for e in st if e[0] == t]

    def _bind(self, st, holder, s):
        if holder == self._peel(s):
            return None
        es = self._val(st, s)
        st2 = {x for x in st if x[0] != holder}
        for h, k, c, o in es:
            st2.add((holder, k, c, o))
        return [frozenset(st2)]

    def on_bind(self, st, ctx, var, typ, s):
        return self._bind(st, ("v", var), s) if st else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if op == "=" and st:
            return self._bind(st, lhs, rhs)
        return None

    def on_return(self, st, ctx, n, s):
        if not st:
            return None
        es = self._val(st, s)
        if not ctx.stack:
            for h, k, c, o in es:
                self.escape(ctx, k, c, h)
            return None
        st2 = {x for x in st if x not in es}
        for h, k, c, o in es:
            st2.add((self.RET, k, c, o))
        return [frozenset(st2)]

    def on_leave(self, st, ctx, kind):
        # locals of the function that ends hold nothing any more
        if not st:
            return None
        r = frozenset(x for x in st if not (x[0][0] == "v" and self.local_of(ctx.fn, x[0][1])))
        return [r] if r != st else None

    def local_of(self, fn, var):
        return var in fn.defs and any(d[0] == "decl" for d in fn.defs[var])

    def null(self, s, pol, h):
        """the fact says the value in holder h is no value at all"""
        if not pol and self._peel(s) == h:
            return True
        e = eq_sides(s)
        if e and pol:
            for a, b in (e, e[::-1]):
                if self._peel(a) == h and (konst(b) in (-1, 0xffffffff) or b[0] == "ctor" and not b[2]):
                    return True
        if pol and s[0] == "o" and s[1] == "<" and self._peel(s[2]) == h and konst(s[3]) == 0:
            return True
        return False

    def on_branch(self, st, ctx, facts):
        if not st:
            return None
        add = {}
        gone = set()
        for h, k, c, o in st:
            for s, p in facts:
                if self.null(s, p, h):
                    gone.add(o)
                r = self.check(ctx, s, p, h)
                if r:
                    add.setdefault(o, set()).add(r)
        if not add and not gone:
            return None
        return [frozenset((h, k, c | add.get(o, frozenset()), o) for h, k, c, o in st if o not in gone)]


def eq_sides(s):
    """operands of an equality sym"""
    if s[0] == "o" and s[1] == "==" and len(s) == 4:
        return s[2], s[3]
    return None

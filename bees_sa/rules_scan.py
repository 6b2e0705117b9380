"""C07 poisonous extents, C08 matches are verified by content, C09 extents left
alone stay untouched and published hashes describe live extents."""
from .common import *
from .linear import lin, sub
from .rules_dedupe import key_fn, _peel
from .engine import Engine


def run(an, f, mk, R, throw=True, follow_dtors=True):
    a = mk()
    e = Engine(an.P, a, throw=throw, follow_dtors=follow_dtors)
    e.run(f, a.initial())
    R.states += e.nstates
    return a, e


def report_all(an, R, f, a, prefix=""):
    for x in a.violations.values():
        R.bad("%s:%s" % (prefix or key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
    return not a.violations


# --------------------------------------------------------------------- C07
class ToxicUse(Tok):
    names = ("BeesAddress::is_toxic", "BeesResolver::is_toxic")
    fields = ("BeesResolver::m_is_toxic",)

    def __init__(self, an, sites):
        super().__init__()
        self.an = an
        self.sites = sites
        self.infns = {f for f, i in sites}

    def relevant(self, fn, i, n):
        return (fn.id, i) in self.sites or super().relevant(fn, i, n)

    def never_enter(self, fn):
        # the resolver and the table are summarised by their own obligations
        if "operator<<" in fn.short:
            return True
        return (fn.short.split("::")[0] in ("BeesResolver", "BeesHashTable", "BeesAddress") and fn.id not in self.infns
                and fn.id not in self.an.P.lambda_owner)

    def keeps(self, t):
        return t[0] == "dirty"

    def guard(self, ctx, s, pol):
        if ctx.fn.id in self.an.algo_lambdas:
            return None
        if s[0] == "c" and len(s) == 4 and s[2] is not None and last(s[1]) == "is_toxic":
            if s[1].startswith("BeesResolver"):
                return ("rtoxic" if pol else "rnt", s[2])
            return ("toxic" if pol else "nt", s[2])
        if s[0] == "f" and last(s[2]) == "m_is_toxic":
            return ("rtoxic" if pol else "rnt", s[1])
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        an = self.an
        l = last(name)
        if l in ("push_back", "emplace_back", "push_front", "insert", "emplace", "emplace_front") and name.startswith("std::") and recv is not None and args and recv[0] == "v":
            ow = an.var_owner.get(recv[1])
            t = ow[2].get("t", "") if ow and ow[1] == "local" else ""
            if "BeesAddress" in t and "pair" not in t and "Hash" not in t:
                v = args[-1]
                if ("nt", v) not in st:
                    return [st | {("dirty", recv)}]
            return None
        return super().on_call(st, ctx, n, name, recv, args)

    def site(self, ctx, n, name, recv, args):
        an = self.an
        if (ctx.fn.id, ctx.node) not in self.sites:
            return None
        if name == "BeesResolver::BeesResolver" and len(args) == 2:
            A = args[1]
            C = an.container_of(A)

            def ok(st):
                if ("nt", A) in st:
                    return True
                return C is not None and C[0] == "v" and ("dirty", C) not in st and self._addr_container(C)
            return [(ok, "resolve-toxic", "a hash table address is looked up without having established that it is not marked toxic")]
        if name == "BeesResolver::chase_extent_ref":
            r = recv
            return [(lambda st: ("rnt", r) in st, "use-toxic-refs", "references of an address are used without having established that its lookup was not toxic")]
        return None

    def _addr_container(self, C):
        ow = self.an.var_owner.get(C[1])
        t = ow[2].get("t", "") if ow and ow[1] == "local" else ""
        return "BeesAddress" in t and "pair" not in t and "Hash" not in t


class ToxicRemember(Tok):
    """a toxic lookup is remembered and ends the scan of the extent"""
    names = ("BeesResolver::is_toxic", "BeesAddress::set_toxic", "BeesHashTable::push_front_hash_addr", "BeesContext::dedup", "BeesContext::rewrite_file_range",
             "BeesHashTable::push_random_hash_addr", "BeesResolver::replace_dst", "BeesResolver::replace_src")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.seen = 0

    def keeps(self, t):
        return t[0] in ("tox", "told")

    def guard(self, ctx, s, pol):
        if s[0] == "c" and len(s) == 4 and last(s[1]) == "is_toxic" and s[1].startswith("BeesResolver") and pol:
            self.seen += 1
            return ("tox",)
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        r = super().on_call(st, ctx, n, name, recv, args)
        st2 = r[0] if r else st
        if name == "BeesAddress::set_toxic":
            return [st2 | {("marked", recv)}]
        if ("tox",) in st2:
            if name == "BeesHashTable::push_front_hash_addr" and len(args) == 2 and ("marked", args[1]) in st2:
                return [st2 | {("told",)}]
            if last(name) in ("dedup", "rewrite_file_range", "push_random_hash_addr", "replace_dst", "replace_src") and not name.startswith("std::"):
                self.report(ctx, "toxic-continues:" + last(name), "after a toxic lookup the scan of the extent goes on to %s" % last(name))
        return r

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and ("tox",) in st and ("told",) not in st:
            self.report(ctx, "toxic-forgotten", "a toxic lookup is not recorded in the hash table")
        return None


class ToxicMeasure(NameAut):
    names = ("getrusage", "BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow")
    fields = ("m_is_toxic", "m_biors")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.toxset = 0

    def initial(self):
        return frozenset()

    def _is_usage(self, s):
        t = [x for x in walk(s) if x[0] == "f" and last(x[2]) in ("tv_sec", "tv_usec")]
        return bool(t) and all(has(x, lambda y: y[0] == "f" and last(y[2]) == "ru_stime") for x in t)

    def _slow(self, s, p):
        """'slow' / 'fast' / None for a fact"""
        kv = self.an.kval
        if s[0] == "o" and s[1] == "<" and len(s) == 4:
            a, b = s[2], s[3]
            if self._is_usage(a) and kv(b) is not None:
                return "fast" if p else "slow"
            if self._is_usage(b) and kv(a) is not None:
                return "slow" if p else "fast"
        return None

    def _few(self, s, p):
        kv = self.an.kval
        if s[0] == "o" and s[1] == "<" and len(s) == 4:
            cnt = lambda x: has(x, lambda y: y[0] == "c" and last(y[1]) == "size" and has(y, lambda z: z[0] == "f" and last(z[2]) == "m_iors"))
            if cnt(s[2]) and (kv(s[3]) or 0) > 1:
                return "few" if p else "many"
            if cnt(s[3]) and (kv(s[2]) or 0) > 1:
                return "many" if p else "few"
        return None

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            for t in (self._slow(s, p), self._few(s, p)):
                if t:
                    out.add(t)
        return [frozenset(out)] if out != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        if name == "getrusage" and len(args) == 2:
            return [st | {("ru", args[1], "after" if "did" in st else "before")}]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if name.endswith("do_ioctl_nothrow"):
            return [st | {"did"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and last(lhs[2]) == "m_is_toxic" and op == "=":
            self.toxset += 1
            st = frozenset(t for t in st if t not in ("t0", "t1"))
            k = konst(rhs)
            if k is not None:
                return [st | {"t%d" % (1 if k else 0)}]
            out = []
            for p in (True, False):
                o = self.on_branch(st, ctx, self.an.P.facts_of(self.an.P.expand_calls(rhs), p))
                out.append((o[0] if o else st) | {"t1" if p else "t0"})
            return out
        if lhs[0] == "f" and last(lhs[2]) == "m_biors":
            return self._refs(st, ctx)
        return None

    def _refs(self, st, ctx):
        if "few" not in st:
            self.report(ctx, "too-many-refs", "references are returned without having established that there are fewer than the limit")
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        if {"slow", "fast"} <= st:
            return None
        if "did" not in st:
            return None
        if "slow" in st:
            if "t1" not in st:
                self.report(ctx, "slow-not-toxic", "a lookup that took too much kernel time is not flagged toxic")
        elif "fast" in st:
            if "t1" in st:
                self.report(ctx, "fast-toxic", "a fast lookup is flagged toxic")
        else:
            self.report(ctx, "unmeasured", "a lookup's result is returned without judging the kernel time it took")
        ab = [t for t in st if isinstance(t, tuple) and t[0] == "ru"]
        if not any(t[2] == "before" for t in ab) or not any(t[2] == "after" for t in ab):
            self.report(ctx, "unbracketed", "the kernel time is not sampled both before and after the lookup")
        return None


def c07(an, R):
    P = an.P
    R.rule("toxic-use", "an address from the hash table is looked up only after it was found not marked toxic; references are used only after the lookup was found not toxic", 2)
    sites = set()
    for nm in ("BeesResolver::BeesResolver", "BeesResolver::chase_extent_ref"):
        for f, i, n in an.sites({nm}):
            if nm.endswith("::BeesResolver"):
                if len(n["a"]) != 2:
                    continue
                # only addresses that come from the hash table carry the marker
                A = P.sym(f, n["a"][1])
                org = an.roots(A)
                if not any(has(s, lambda x: x[0] == "c" and last(x[1]) == "find_cell") for s in org) and an.container_of(A) is None and not has(A, lambda x: x[0] == "f" and last(x[2]) == "e_addr"):
                    R.ok("lookup of an address not taken from the hash table in %s" % f.short, f)
                    continue
            sites.add((f.id, i))
    for f in {f: 1 for f, i in sites}:
        f = P.fns[f]
        a, e, v = an.prove(f, lambda: ToxicUse(an, sites), 3, follow_dtors=False)
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            for i in [i for g, i in sites if g == f.id]:
                R.ok("%s in %s" % (last(short(f.nodes[i]["n"])), f.short), f)
    R.rule("toxic-remember", "a lookup found toxic marks the address, records it in the hash table, and ends work on the extent", 1)
    for f, i, n in an.sites({"BeesResolver::is_toxic"}):
        a, e = run(an, f, lambda: ToxicRemember(an), R)
        if report_all(an, R, f, a) and a.seen:
            R.ok("toxic result handled in %s" % f.short, f)
    R.rule("toxic-measure", "kernel time is sampled before and after every lookup; a lookup over the threshold is flagged; references at or over the limit are not returned", 1)
    for f, i, n in an.sites({"BtrfsIoctlLogicalInoArgs::do_ioctl_nothrow"}):
        if P.sym(f, i) and "Resolve" not in f.ret and "ResolveAddrResult" not in f.ret:
            R.ok("lookup without toxicity result in %s" % f.short, f)
            continue
        a, e = run(an, f, lambda: ToxicMeasure(an), R)
        if report_all(an, R, f, a):
            R.check(a.toxset >= 1, "toxicity judged in %s" % f.short, "%s:never" % f.short, an.where(f), "the lookup never decides whether the address is toxic", f)
        # the quantity judged: after minus before, seconds and microseconds
        for j in f.live_nodes():
            nn = f.nodes[j]
            if nn["k"] == "decl":
                for v in nn["d"]:
                    if v["init"] is not None and v["init"] >= 0 and strip_t(v["t"]) == "double":
                        s = P.expand_calls(P.sym(f, v["init"]))
                        if has(s, lambda x: x[0] == "f" and last(x[2]) == "ru_stime"):
                            d = lin(s)
                            sg = {}
                            for a_, k in d.items():
                                if a_ == 1:
                                    continue
                                base = [x for x in walk(a_) if x[0] == "f" and last(x[2]) == "ru_stime"]
                                u = "usec" if has(a_, lambda x: x[0] == "f" and last(x[2]) == "tv_usec") else "sec"
                                if base:
                                    sg[(base[0][1], u)] = k
                            vs = sorted(sg.values())
                            objs = {o for o, u in sg}
                            ok = len(sg) == 4 and len(objs) == 2 and all(len({sg[(o, u)] for u in ("sec", "usec")}) == 1 for o in objs) and vs == [-1, -1, 1, 1]
                            R.check(ok, "kernel time = after - before in %s" % f.short, "%s:delta" % f.short, an.where(f, v["init"]), "the judged time is not the system time consumed by the lookup", f)
    R.rule("toxic-state", "a resolver's toxic flag is taken from the lookup result whenever its address changes", 1)
    ws = [w for w in an.field_writes.get("BeesResolver::m_is_toxic", []) if w[0].id in an.reach and w[2] in ("as",)]
    for f, r, kind, i in ws:
        s = P.sym(f, r)
        ok = has(s, lambda x: x[0] == "f" and last(x[2]) == "m_is_toxic")
        R.check(ok, "resolver flag from lookup result in %s" % f.short, "%s:flag" % f.short, an.where(f, i), "the resolver's toxic flag is set from something else than the lookup's verdict", f)
    for f in P.by_short.get("BeesResolver::addr", []):
        if f.params and f.blocks:
            a, e = run(an, f, lambda: RefreshAut(an), R)
            report_all(an, R, f, a)
    R.rule("toxic-grow", "a match is never extended over a block whose hash has a toxic entry", 1)
    for f in P.fn("BeesRangePair::grow"):
        a, e = run(an, f, lambda: GrowAut(an, "toxic"), R, throw=False, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.commits >= 1, "%d range extensions" % a.commits, "grow:none", an.where(f), "range extension not found", f)
    return ["an address not taken from the hash table carries no toxic marker"]


class RefreshAut(NameAut):
    names = ("BeesContext::resolve_addr",)
    fields = ("BeesResolver::m_is_toxic", "BeesResolver::m_biors")

    def __init__(self, an):
        super().__init__()
        self.an = an

    def initial(self):
        return frozenset()

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and last(lhs[2]) in ("m_is_toxic", "m_biors"):
            return [st | {last(lhs[2])}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and not {"m_is_toxic", "m_biors"} <= st:
            self.report(ctx, "stale-flag", "a resolver can keep the previous address's verdict")
        return None


# ------------------------------------------------------------ range extension
def nrm(an, s):
    """begin()/end()/size() and their fields as atoms ('B',o) ('E',o)"""
    if not isinstance(s, tuple) or not s:
        return s
    if s[0] == "c" and len(s) == 4 and s[2] is not None and not s[3] and s[1].startswith("BeesFileRange"):
        o = nrm(an, s[2])
        if last(s[1]) == "begin":
            return ("B", o)
        if last(s[1]) == "end":
            return ("E", o)
        if last(s[1]) == "size":
            return ("o", "-", ("E", o), ("B", o))
        if last(s[1]) == "fd":
            return ("FD", o)
    if s[0] == "f" and last(s[2]) in ("m_begin", "m_end") and s[2].startswith("BeesFileRange"):
        return ("B" if last(s[2]) == "m_begin" else "E", nrm(an, s[1]))
    return tuple(nrm(an, x) if isinstance(x, tuple) else x for x in s)


class GrowAut(Tok):
    """what must hold when a range pair is replaced by a larger one"""
    names = ("*::is_data_equal", "*::overlaps", "BeesAddress::is_toxic", "BeesHashTable::find_cell", "BeesFileRange::operator=", "BeesFileRange::size", "*::get_physical_or_zero")
    fields = ("BeesRangePair::first", "BeesRangePair::second", "std::pair::first", "std::pair::second")

    def __init__(self, an, what):
        super().__init__()
        self.an = an
        self.what = what
        self.commits = 0

    def guard(self, ctx, s, pol):
        an = self.an
        al = an.algo_lambdas.get(ctx.fn.id)
        if al:
            return None
        out = []
        if s[0] == "c" and len(s) == 4:
            l = last(s[1])
            if (l in ("is_toxic", "any_of", "none_of")) != (self.what == "toxic"):
                return None
            if l == "is_data_equal" and pol and s[2] is not None:
                out.append(("eq", nrm(an, s[2]), nrm(an, s[3][0])))
            if l == "overlaps" and not pol and s[2] is not None:
                out.append(("apart", nrm(an, s[2]), nrm(an, s[3][0])))
            if l == "is_toxic" and not s[1].startswith("BeesResolver"):
                if pol:
                    out.append(("tox",))
                else:
                    out.append(("tested",))
            if l in ("any_of", "none_of") and s[1].startswith("std::") and s[3] and s[3][-1][0] == "lam":
                lf = an.P.fns.get(s[3][-1][1])
                r = an.P.pure_return(lf) if lf else None
                if r is not None and has(an.P.sym(lf, r), lambda x: x[0] == "c" and last(x[1]) == "is_toxic"):
                    toxic = pol if l == "any_of" else not pol
                    out.append(("tox",) if toxic else ("tested",))
        e = eq_sides(s)
        if e:
            for a, b in (e, e[::-1]):
                if a[0] == "c" and last(a[1]) == "get_physical_or_zero" and b[0] == "c" and last(b[1]) == "get_physical_or_zero" and not pol:
                    if self.what == "content":
                        out.append(("distinct", nrm(an, e[0]), nrm(an, e[1])))
                # loop over the cell ran to its end
                if a[0] == "v" and b[0] in ("v", "c") and pol and ctx.eng.P and self._iter(a) and ("x",):
                    if self.what == "toxic":
                        out.append(("tested",))
            if pol and self.what == "content":
                d = sub(lin(nrm(an, e[0])), lin(nrm(an, e[1])))
                if len(d) == 4 and {k[0] for k in d if isinstance(k, tuple)} == {"E", "B"}:
                    out.append(("eqlen", frozenset(d.items())))
        return out or None

    def _iter(self, a):
        ow = self.an.var_owner.get(a[1])
        return bool(ow and ow[1] == "local" and ("iterator" in ow[2].get("t", "")))

    def establish(self, ctx, n, name, recv, args):
        if name == "BeesHashTable::find_cell" and self.what == "toxic":
            return [("cell", nrm(self.an, args[0]))]
        return ()

    def on_call(self, st, ctx, n, name, recv, args):
        r = super().on_call(st, ctx, n, name, recv, args)
        st = r[0] if r else st
        if name == "BeesHashTable::find_cell":
            st = frozenset(t for t in st if t not in (("tox",), ("tested",)))
            return [st]
        return r

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if op == "=" and lhs[0] == "f" and last(lhs[2]) in ("first", "second") and lhs[1][0] == "this" and not ctx.stack:
            return self._commit(st, ctx, lhs, rhs)
        return super().on_assign(st, ctx, n, lhs, rhs, op)

    def _commit(self, st, ctx, lhs, rhs):
        an = self.an
        self.commits += 1
        side = last(lhs[2])
        old, new = nrm(an, lhs), nrm(an, rhs)
        if self.what == "toxic":
            if side == "first":
                bad = ("tox",) in st or ("tested",) not in st or not any(t[0] == "cell" and self._covers(t[1], old, new) for t in st)
                if bad:
                    self.report(ctx, "grow-toxic", "a match is extended without having established that the added block's hash has no toxic entry")
            return None
        # content: the added blocks of both sides compared equal
        if not any(t[0] == "eq" and (self._covers(t[1], old, new) or self._covers(t[2], old, new)) for t in st):
            self.report(ctx, "grow-unverified:" + side, "a match is extended over a block whose content was not compared equal")
        other = [t for t in st if t[0] == "half" and t[1] != side]
        if not other:
            return [frozenset(t for t in st if t[0] != "half") | {("half", side, new)}]
        o = other[0][2]
        if not any(t[0] == "apart" and {t[1], t[2]} == {o, new} for t in st):
            self.report(ctx, "grow-overlap", "a match is extended without having established that the larger ranges do not overlap")
        if not any(t[0] == "distinct" for t in st):
            self.report(ctx, "grow-same", "a match is extended over blocks that may already be the same physical block")
        if not any(t[0] == "eqlen" and {k[1] for k in dict(t[1])} == {o, new} for t in st):
            self.report(ctx, "grow-length", "a match is extended without having established that both larger ranges have the same size")
        # all tokens are about the old ranges: forget them
        return [frozenset()]

    def _covers(self, b, o, nw):
        """block b is what range o gains when it becomes nw"""
        if b[0] == "c" and last(b[1]) == "hash" and b[2] is not None:
            b = b[2]
        if b[0] != "ctor" or last(b[1]) != "BeesBlockData" or len(b[2]) != 3:
            return None
        fd, off, ln = b[2]
        L = lin(ln)
        if fd not in (("FD", o), ("FD", nw)):
            return None
        if lin(off) == lin(("B", nw)) and L == sub({("B", o): 1}, {("B", nw): 1}):
            return "back"
        if lin(off) == lin(("E", o)) and L == sub({("E", nw): 1}, {("E", o): 1}):
            return "fwd"
        # the other end does not move when a range grows at one end
        sz = sub(sub({("E", nw): 1}, {("B", nw): 1}), sub({("E", o): 1}, {("B", o): 1}))
        if L == sz and lin(off) == lin(("B", nw)):
            return "back"
        if L == sz and lin(off) == lin(("E", o)):
            return "fwd"
        return None


# --------------------------------------------------------------------- C08
class StrawAut(Tok):
    """non-empty candidates are returned only after a byte comparison"""
    names = ("*::is_data_equal",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.good = 0

    def guard(self, ctx, s, pol):
        if s[0] == "c" and last(s[1]) == "is_data_equal" and pol:
            return [("eq", s[2]), ("eq", s[3][0])]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        s = _peel(s)
        if s[0] == "ctor" and not s[2]:
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        if ("eq", s) not in st:
            self.report(ctx, "unverified-block", "a candidate block is returned without having been compared byte for byte")
        else:
            self.good += 1
        return None


class ChaseAut(Tok):
    names = ("BeesResolver::adjust_offset", "*::get_physical_or_zero", "*::is_magic", "BeesBlockData::empty", "*::is_data_equal")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.good = 0

    def never_enter(self, fn):
        return fn.short == "BeesResolver::adjust_offset"

    def guard(self, ctx, s, pol):
        out = []
        if s[0] == "c" and len(s) == 4:
            if last(s[1]) == "empty" and not pol and s[2] is not None and has(s[2], lambda x: x[0] == "c" and last(x[1]) == "adjust_offset"):
                out.append(("data",))
            if last(s[1]) == "is_magic" and not pol and s[2] is not None and s[2][0] in ("ctor", "v"):
                out.append(("notmagic", s[2]))
            if last(s[1]) == "is_data_equal" and pol:
                out.append(("data",))
        e = eq_sides(s)
        if e and pol:
            a, b = e
            ph = lambda x: x[0] == "c" and last(x[1]) == "get_physical_or_zero"
            if ph(a) and ph(b):
                for x, y in ((a, b), (b, a)):
                    if has(y, lambda z: z[0] == "f" and last(z[2]) == "m_addr" and z[1] == ("this",)) or True:
                        out.append(("phys", x[2]))
        # empty candidate tested via size()
        if s[0] == "c" and last(s[1]) == "size" and pol and s[2] is not None and has(s[2], lambda x: x[0] == "c" and last(x[1]) == "adjust_offset"):
            out.append(("data",))
        return out or None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        s = _peel(s)
        if s[0] == "ctor" and not s[2]:
            return None
        self.instances.add((ctx.fn.id, ctx.node))
        self.good += 1
        if ("data",) not in st:
            self.report(ctx, "unverified-ref", "a reference is accepted as duplicate without a verified block")
        ph = {t[1] for t in st if t[0] == "phys"}
        if not ph:
            self.report(ctx, "wrong-address", "a reference is accepted although it may no longer be stored at the looked-up address")
        if not any(t[0] == "notmagic" and t[1] in ph for t in st):
            self.report(ctx, "magic-address", "a reference is accepted although its address may not denote a data block")
        return None


def c08(an, R):
    P = an.P
    R.rule("content-compared", "a candidate block is returned only after it was read and found byte-identical", 1)
    for f in P.fn("BeesResolver::adjust_offset"):
        a, e = run(an, f, lambda: StrawAut(an), R, throw=False)
        if report_all(an, R, f, a):
            R.check(a.good >= 1, "%d non-empty returns, each after a comparison" % a.good, "adjust_offset:none", an.where(f), "no verified candidate is ever returned", f)
    R.rule("reference-checked", "a reference becomes a match only with a verified block, at the looked-up physical address, holding real data", 1)
    for f in P.fn("BeesResolver::chase_extent_ref"):
        a, e = run(an, f, lambda: ChaseAut(an), R, throw=False)
        if report_all(an, R, f, a):
            R.check(a.good >= 1, "%d accepted-reference returns" % a.good, "chase:none", an.where(f), "no reference is ever accepted", f)
    R.rule("match-source", "what is deduplicated against comes from an accepted reference", 1)
    # visitors receive only chase_extent_ref results
    for f, i, n in an.sites({"std::function::operator()"}):
        if f.short == "BeesResolver::for_each_extent_ref":
            s = P.sym(f, n["a"][0])
            R.check(has(s, lambda x: x[0] == "c" and last(x[1]) == "chase_extent_ref"), "visitor called with %s" % show(s, 60), "for_each_extent_ref:visitor", an.where(f, i), "a visitor receives a reference that was not checked", f)
    R.rule("equality", "block equality means equal size and equal bytes", 2)
    f = P.one("BeesBlockData::is_data_equal")
    ok = False
    for i in f.live_nodes():
        if f.nodes[i]["k"] == "ret":
            s = P.sym(f, f.nodes[i]["s"])
            e = eq_sides(s)
            if konst(s) == 0:
                continue
            if e and {x[2] for x in e if x[0] == "c" and last(x[1]) == "data"} == {("this",), ("v", f.params[0]["var"])}:
                ok = True
            else:
                R.bad("is_data_equal:compare", an.where(f, i), "two blocks can be called equal by something else than comparing their data", fn=f)
    R.check(ok, "block comparison compares the data of both blocks", "is_data_equal:none", an.where(f), "block comparison never compares the data", f)
    f = P.one("ByteVector::operator==")
    a, e = run(an, f, lambda: BytesEq(an), R, throw=False)
    report_all(an, R, f, a, "ByteVector::operator==")
    R.check(a.good >= 1, "byte comparison covers the full size", "bytes-eq:none", an.where(f), "byte comparison not found", f)
    R.rule("growth-verified", "a match grows only over blocks read and found byte-identical on both sides, at distinct physical addresses, without overlap and keeping both sizes equal", 1)
    for f in P.fn("BeesRangePair::grow"):
        a, e = run(an, f, lambda: GrowAut(an, "content"), R, throw=False, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.commits >= 1, "%d range extensions" % a.commits, "grow:none", an.where(f), "range extension not found", f)
    return ["the kernel repeats the comparison under lock before sharing (C04)"]


class BytesEq(NameAut):
    names = ("memcmp", "std::equal")
    fields = ("m_size", "m_ptr")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.good = 0

    def initial(self):
        return frozenset()

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            e = eq_sides(s)
            if e and p and all(self._is(x, "m_size", "size") for x in e):
                out.add("samesize")
            if e and p and all(self._is(x, "m_ptr", "data") for x in e):
                out.add("sameptr")
            if not p and s[0] == "f" and last(s[2]) == "m_ptr":
                out.add("null" if s[1] == ("this",) else "thatnull")
            if p and s[0] == "f" and last(s[2]) == "m_ptr":
                out.add("some" if s[1] == ("this",) else "thatsome")
            if s[0] == "c" and s[1] == "memcmp" and not p:
                out.add("same" if self._full(s) else "partial")
            if s[0] == "c" and s[1] == "std::equal" and p:
                out.add("same")
        return [frozenset(out)] if out != st else None

    def _is(self, x, fld, meth):
        return x[0] == "f" and last(x[2]) == fld or x[0] == "c" and last(x[1]) == meth

    def _full(self, s):
        return len(s[3]) == 3 and self._is(s[3][2], "m_size", "size") and self._is(s[3][0], "m_ptr", "data") and self._is(s[3][1], "m_ptr", "data") and s[3][0] != s[3][1]

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        k = konst(s)
        cases = []
        if k is None:
            o = self.on_branch(st, ctx, self.an.P.facts_of(s, True))
            cases.append(o[0] if o else st)
        elif k:
            cases.append(st)
        for c in cases:
            if {"null", "some"} <= c or {"thatnull", "thatsome"} <= c:
                continue
            self.good += 1
            if "sameptr" in c or {"null", "thatnull"} <= c:
                continue
            if "same" in c and "samesize" in c:
                continue
            self.report(ctx, "weak-equality", "two byte strings can be called equal without equal sizes and a full comparison")
        return None


# --------------------------------------------------------------------- C09
class LeaveAlone(Tok):
    """effects of one extent's scan"""
    names = ("BeesContext::dedup", "BeesContext::rewrite_file_range", "BeesHashTable::push_random_hash_addr")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = {"dedup": 0, "rewrite": 0, "publish": 0, "seen": 0}

    def never_enter(self, fn):
        return fn.short in ("BeesContext::dedup", "BeesContext::rewrite_file_range")

    def keeps(self, t):
        return True

    def _is_seen(self, s):
        if s is None or s[0] not in ("v", "g", "f"):
            return False
        ow = self.an.var_owner.get(s[1]) if s[0] == "v" else None
        t = ow[2].get("t", "") if ow and ow[1] == "local" else (self.an.P.globals.get(s[1], {}).get("t", "") if s[0] == "g" else "")
        return "BeesSeenRange" in t

    def on_call(self, st, ctx, n, name, recv, args):
        if name in ("BeesContext::dedup", "BeesContext::rewrite_file_range"):
            w = "dedup" if name.endswith("dedup") else "rewrite"
            self.n[w] += 1
            if ("failed",) in st:
                self.report(ctx, "after-failure:" + w, "after a failed dedupe the scan still modifies the extent")
            if w == "rewrite":
                return [st | {("modified",)}]
            return [st - {("failed?",)}]
        if name == "BeesHashTable::push_random_hash_addr":
            self.n["publish"] += 1
            if ("modified",) in st:
                self.report(ctx, "publish-modified", "hashes of an extent are published although the scan just rewrote it")
            if ("failed",) in st:
                self.report(ctx, "publish-failed", "hashes of an extent are published although its data changed during the scan")
        if last(name) in ("insert", "emplace") and self._is_seen(recv):
            self.n["seen"] += 1
            if ("modified",) in st:
                self.report(ctx, "seen-modified", "an extent is remembered as finished although the scan just rewrote it")
            if ("failed",) in st:
                self.report(ctx, "seen-failed", "an extent is remembered as finished although its dedupe failed")
        return None

    def guard(self, ctx, s, pol):
        if s[0] == "c" and s[1] == "BeesContext::dedup":
            if not pol and has(s, lambda x: x[0] == "c" and last(x[1]) in ("make_hole", "tmpfile") or x[0] == "f" and last(x[2]) == "m_tmpfile_pool"):
                # replacing preallocated space by a hole is not a content match
                return None
            return ("modified",) if pol else ("failed",)
        return None


class ForceAut(Tok):
    """the two cost rules: once one said 'leave alone', nothing modifies"""
    names = ("BeesContext::dedup", "BeesContext::rewrite_file_range")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.rules = set()

    def never_enter(self, fn):
        return fn.short in ("BeesContext::dedup", "BeesContext::rewrite_file_range")

    def keeps(self, t):
        return True

    def _rule(self, s, p):
        """cost facts that forbid touching the extent"""
        if s[0] == "o" and s[1] == "<" and len(s) == 4:
            a, b = s[2], s[3]
            # more than a fixed number of operations
            szs = lambda x: x[0] == "o" and x[1] == "+" and all(y[0] == "c" and last(y[1]) == "size" for y in x[2:])
            if konst(a) is not None and szs(b) and p:
                return "ops"
            if szs(a) and konst(b) is not None and not p:
                return "ops"
            # costs exceed gains
            names = lambda x: {y[1].split("@")[0] for y in walk(x) if y[0] == "v"}
            na, nb = names(a), names(b)
            if p and any("dedup" in z or "gain" in z for z in na) and any("cop" in z or "cost" in z for z in nb):
                return "cost"
        return None

    def guard(self, ctx, s, pol):
        r = self._rule(s, pol)
        if r:
            self.rules.add(r)
            return ("leave", r)
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if name in ("BeesContext::dedup", "BeesContext::rewrite_file_range"):
            for t in st:
                if t[0] == "leave":
                    self.report(ctx, "modifies-nuisance:" + t[1], "an extent the cost rules decided to leave alone is modified anyway")
        return None


def c09(an, R):
    P = an.P
    f = P.one("BeesContext::scan_one_extent")
    R.rule("publish-live", "hashes are published and an extent is remembered as finished only on paths where the scan neither rewrote it nor failed to dedupe it", 2)
    a, e = run(an, f, lambda: LeaveAlone(an), R)
    if report_all(an, R, f, a):
        for k, v in a.n.items():
            R.ok("%s sites reached on %d path states" % (k, v), f)
    if not a.n["publish"] or not a.n["dedup"]:
        raise AnalysisBroken("scan of an extent: dedupe or publication not found")
    R.rule("leave-alone", "on every path where a cost rule decided against touching the extent, no dedupe and no copy is made", 2)
    a, e = run(an, f, lambda: ForceAut(an), R)
    if report_all(an, R, f, a):
        for r in sorted(a.rules):
            R.ok("cost rule '%s' respected" % r, f)
    return []

"""C20 scanning passes over no extent."""
from .common import *
from .linear import lin, sub
from .rules_dedupe import key_fn
from .rules_scan import run, report_all
from .rules_crawl import peel1, lam_nodes, vtype, scanners
from .rules_save import noise, is_field, thread_fn, reachable_from, END

MC = "BeesScanModeExtent::MagicCrawl::"
ST = "BeesScanModeExtent::SizeTier::"
BCS = "BeesCrawlState::"
TREE_BLOCK = 2
INLINE, REG, PREALLOC = 0, 1, 2
TOP = 2 ** 64 - 1


def gval(nodes, i):
    """value of a global initialiser's node"""
    n = nodes[i]
    if "v" in n:
        return int(n["v"]) % 2 ** 64
    if n["k"] in ("cast", "other", "paren") and len(n.get("a", ())) == 1:
        return gval(nodes, n["a"][0])
    if n["k"] == "cast" and "s" in n:
        return gval(nodes, n["s"])
    return None


def flatten(nodes, i):
    n = nodes[i]
    v = gval(nodes, i)
    if v is not None:
        return [v]
    out = []
    for a in n.get("a", ()):
        out += flatten(nodes, a)
    return out


def tier_table(an):
    """[(id, min, max)] of the size tier table, its name"""
    for nm, g in an.P.globals.items():
        if not g.get("def") or "MagicCrawl" not in g.get("nodes", [{}])[0].get("t", ""):
            continue
        ns = g["nodes"]
        best = None
        for n in ns:
            if n["k"] == "il" and "pair" in n.get("t", ""):
                best = n
                break
        if best is None:
            return nm, None, g
        rows = [flatten(ns, a) for a in best["a"]]
        return nm, rows, g
    return None, None, None


def callname(s):
    return last(s[1]) if s and s[0] == "c" else ""


class Passed(NameAut):
    """every item fetched (start) is handed over or excused before the next one
    is fetched or the function ends.
    tokens ("item", sym) names of the current item, "got", "why", "done" """

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.handed = 0

    def initial(self):
        return frozenset()

    def items(self, st):
        return [t[1] for t in st if isinstance(t, tuple) and t[0] == "item"]

    def of(self, st, s, *names):
        """s is a call of one of the members on the current item"""
        s = peel1(s)
        return callname(s) in names and s[2] is not None and any(peel1(s[2]) == i for i in self.items(st))

    def is_start(self, ctx, name, recv):
        return False

    def is_hand(self, st, ctx, name, recv, args):
        return False

    def reason(self, st, s, p):
        """True: excused; a token to remember; None"""
        return None

    def clear(self, st):
        return frozenset(t for t in st if not (t in ("got", "why", "done") or isinstance(t, tuple) and t[0] in ("item", "fact")))

    def judge(self, st, ctx):
        if "got" in st and "why" not in st and "done" not in st:
            self.report(ctx, "passed", self.MSG)

    MSG = "an extent is passed over although nothing says that it need not be scanned"

    def after_call(self, st, ctx, n, name, recv, args):
        if self.is_start(ctx, name, recv):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            self.judge(st, ctx)
            return [self.clear(st) | {"got", ("item", ctx.sym(ctx.node))}]
        if self.is_hand(st, ctx, name, recv, args):
            self.handed += 1
            return [st | {"done"}]
        return None

    def on_bind(self, st, ctx, var, typ, s):
        out = frozenset(t for t in st if t != ("item", ("v", var)))
        if "got" in st and any(peel1(s) == i for i in self.items(st)):
            out = out | {("item", ("v", var))}
        return [out] if out != st else None

    def on_branch(self, st, ctx, facts):
        out = st
        if "got" not in st:
            return None
        for s, p in facts:
            x = s
            q = p
            while x and x[0] == "c" and len(x) == 4 and last(x[1]) in ("operator!", "operator bool") and x[2] is not None:
                if last(x[1]) == "operator!":
                    q = not q
                x = x[2]
            if peel1(x) in self.items(st):
                if not q:
                    return [self.clear(out)]
                continue
            r = self.reason(out, s, p)
            if r is True:
                out = out | {"why"}
            elif r:
                out = out | {r}
        return [out] if out != st else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack:
            self.judge(st, ctx)
        return None


def flag_fact(an, s, call):
    """(masked call sym, mask) of a truth test of call & mask"""
    if s[0] == "o" and s[1] == "&" and len(s) == 4:
        for a, b in ((s[2], s[3]), (s[3], s[2])):
            k = an.kval(b)
            if k is not None and callname(peel1(a)) == call:
                return peel1(a), k
    return None, None


class ExtentPass(Passed):
    names = ("BtrfsTreeFetcher::lower_bound", "BtrfsTreeFetcher::rlower_bound", "crucible::Task::run", "Task::run", "Task::idle")
    LB = "BtrfsTreeFetcher::lower_bound"

    def __init__(self, an):
        super().__init__(an)
        self.hand = scanners(an, ("BeesScanModeExtent::SizeTier::create_extent_map",))
        self.nj = 0

    def never_enter(self, fn):
        c = fn.short.split("::")[0]
        return noise(fn) or c in ("Task", "TaskState", "BeesCrawl", "BeesContext") or c.startswith("Btrfs")

    def is_start(self, ctx, name, recv):
        return name == self.LB

    def is_hand(self, st, ctx, name, recv, args):
        if name.split("::")[-2:] in (["Task", "run"], ["Task", "idle"]) and recv is not None:
            if ("task", recv) in st:
                return True
            return has(recv, lambda x: x[0] == "lam" and x[1] in self.hand)
        return False

    def on_bind(self, st, ctx, var, typ, s):
        r = super().on_bind(st, ctx, var, typ, s)
        st = r[0] if r else st
        out = set(t for t in st if t not in (("task", ("v", var)),) and not (isinstance(t, tuple) and t[0] == "back" and t[1] == ("v", var)))
        if "Task" in typ and has(s, lambda x: x[0] == "lam" and x[1] in self.hand):
            out.add(("task", ("v", var)))
        p = peel1(s)
        if callname(p) == "rlower_bound":
            out.add(("back", ("v", var), p))
        return [frozenset(out)]

    def offset_side(self, st, s):
        return self.of(st, s, "offset")

    def reason(self, st, s, p):
        f, k = flag_fact(self.an, s, "extent_flags")
        if f is not None:
            return p and k == TREE_BLOCK and self.of(st, f, "extent_flags")
        if s[0] == "o" and s[1] == "<" and len(s) == 4:
            a, b = peel1(s[2]), peel1(s[3])
            if p and (self.of(st, a, "offset") and is_field(b, MC + "m_min_size") or is_field(a, MC + "m_max_size") and self.of(st, b, "offset")):
                return True
            gen = ("extent_generation", "transid")
            if p and (self.of(st, a, gen[0]) and is_field(b, BCS + "m_min_transid") or is_field(a, BCS + "m_max_transid") and self.of(st, b, gen[0])):
                return True
            # a position found by searching backwards lies past the end of this extent
            if p and self.is_next(st, s[2]) and self.found(st, s[3]) is not None:
                return ("fact", "fwd", self.found(st, s[3]))
        return None

    def is_next(self, st, s):
        """end of the current extent"""
        l = lin(s)
        t = {k: v for k, v in l.items() if k != 1}
        return l.get(1, 0) == 0 and len(t) == 2 and all(v == 1 for v in t.values()) and sorted(callname(peel1(k)) for k in t) == ["objectid", "offset"] and all(self.of(st, k, "objectid", "offset") for k in t)

    def found(self, st, s):
        """the backward search whose result's position s is, as its sym"""
        s = peel1(s)
        if callname(s) != "objectid" or s[2] is None:
            return None
        x = peel1(s[2])
        if callname(x) == "rlower_bound":
            return x
        for t in st:
            if isinstance(t, tuple) and t[0] == "back" and t[1] == x:
                return t[2]
        return None

    def near(self, st, arg):
        """searching back from arg can skip only extents shorter than the tier's minimum"""
        l = lin(arg)
        mins = scale = 0
        ends = []
        for k, v in l.items():
            if k == 1:
                if v > 0:
                    return False
                continue
            x = peel1(k)
            if self.of(st, x, "objectid", "offset"):
                ends.append((callname(x), v))
            elif callname(x) in ("scale_size", "block_size"):
                if v > 0:
                    return False
                scale = v
            elif is_field(x, MC + "m_min_size"):
                if mins or v != 1 or not (l.get(1, 0) < 0 or scale or any(callname(peel1(y)) in ("scale_size", "block_size") and w < 0 for y, w in l.items() if y != 1)):
                    return False
                mins = 1
            elif x[0] == "o" and x[1] == "&" and any(is_field(peel1(y), MC + "m_min_size") for y in x[2:]):
                if mins or v != 1:
                    return False
                mins = 1
            else:
                return False
        return sorted(ends) == [("objectid", 1), ("offset", 1)]

    def cursor(self, ctx, lhs):
        return lhs[0] == "v" and self.cur is not None and lhs[1] in self.cur

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if not self.cursor(ctx, lhs):
            return None
        self.nj += 1
        self.instances.add((ctx.fn.id, ctx.node))
        if op == "=" and self.is_next(st, rhs):
            return None
        f = self.found(st, rhs) if op == "=" else None
        if f is None:
            self.report(ctx, "jump", "the search continues at a place that is neither the end of the extent found nor the start of an extent")
            return None
        if len(f[3]) != 1 or not self.near(st, f[3][0]):
            self.report(ctx, "far", "the search may jump over extents that are long enough for this size tier")
        if ("fact", "fwd", f) not in st:
            self.report(ctx, "back", "the search may go back to where it already was and never end")
        return None


def type_of(an, s):
    s = peel1(s)
    if s[0] == "v":
        return vtype(an, s[1])
    if s[0] == "f":
        c, m = s[2].rsplit("::", 1) if "::" in s[2] else ("", s[2])
        for x in an.P.records.get(c, {}).get("fields", ()):
            if x["name"] == m:
                return x["t"]
    return ""


def is_in(s, p):
    """the fact says that a container has the element asked for"""
    e = eq_sides(s)
    if e and not p and any(konst(x) == 0 for x in e):
        return any(callname(peel1(x)) in ("count", "contains") for x in e)
    if s[0] == "o" and s[1] == "<" and len(s) == 4:
        if p and konst(s[2]) == 0 and callname(peel1(s[3])) == "count":
            return True
        return not p and konst(s[3]) == 1 and callname(peel1(s[2])) == "count"
    return p and callname(s) in ("count", "contains")


class LoopAll(Passed):
    """every element of the loop over a container is dealt with, and the loop is
    left only at its end or when `leave` says so"""
    names = ("*::run_task", "*::find_next_extent", "*::insert", "*::emplace", "*::operator[]", "Task::idle", "Task::run")
    MSG = "an element of the loop is passed over"

    def __init__(self, an, pred, hand, excuse=None, leave=None):
        super().__init__(an)
        self.pred, self.hand, self.excuse, self.leave = pred, hand, excuse, leave

    def iterator(self, var):
        t = vtype(self.an, var)
        return ("iterator" in t or t.rstrip().endswith("*")) and self.pred(t)

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("Task", "TaskState", "BeesCrawl", "BeesRoots", "BeesContext", "BtrfsTreeFetcher") or fn.short.startswith(ST)

    def on_bind(self, st, ctx, var, typ, s):
        return None

    def is_hand(self, st, ctx, name, recv, args):
        return "got" in st and self.hand(self, st, ctx, name, recv, args)

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            e = eq_sides(s)
            it = [x for x in e or () if x[0] == "v" and self.iterator(x[1])]
            if s[0] == "o" and s[1] == "<" and s[2][0] == "v" and callname(s[3]) == "size" and s[3][2] is not None and self.pred(type_of(self.an, s[3][2])):
                # a loop over the numbers of the elements
                self.judge(out, ctx)
                out = self.clear(out) - {"open"}
                if p:
                    self.n += 1
                    self.instances.add((ctx.fn.id, ctx.node))
                    out = out | {"got", "open", ("item", s[2])}
                continue
            if it and any(callname(x) in ("end", "cend") or x[0] == "v" and x[1].startswith("__end") for x in e):
                # the loop's condition: the next element, or none
                self.judge(out, ctx)
                out = self.clear(out) - {"open"}
                if not p:
                    self.n += 1
                    self.instances.add((ctx.fn.id, ctx.node))
                    out = out | {"got", "open", ("item", it[0])}
                continue
            if "got" in out and self.excuse and self.excuse(self, out, s, p):
                out = out | {"why"}
            if self.leave and self.leave(self, out, s, p):
                out = out - {"open"} | {"left"}
        return [out] if out != st else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack:
            if "open" in st and "left" not in st:
                self.report(ctx, "cut", "the loop over all elements ends early")
            self.judge(st, ctx)
        return None


class RefPass(LoopAll):
    MSG = "a reference of the extent is not queued for scanning"
    names = ("*::push_back", "*::push_front", "*::emplace_back", "*::insert", "BtrfsInodeFetcher::stat", "*::at", "*::inode_flags", "Task::run", "Task::idle")

    def __init__(self, an):
        def pred(typ):
            return "BtrfsInodeOffsetRoot" in typ

        def hand(me, st, ctx, name, recv, args):
            return last(name) in ("push_back", "push_front", "emplace_back", "insert") and recv is not None and "ExtentRef" in name + str(ctx.fn.nodes[ctx.node].get("n", ""))

        def excuse(me, st, s, p):
            x, q = s, p
            while x and x[0] == "c" and len(x) == 4 and last(x[1]) in ("operator!", "operator bool") and x[2] is not None:
                if last(x[1]) == "operator!":
                    q = not q
                x = x[2]
            if not q and (callname(peel1(x)) == "at" or x[0] == "v" and "BtrfsTreeItem" in vtype(an, x[1]) and self.from_at(x[1])):
                return True
            return self.nocow(s, p)
        super().__init__(an, pred, hand, excuse, lambda me, st, s, p: self.nocow(s, p))
        self.scan = scanners(an)

    # flags set in the loop's body and looked at outside it
    def on_bind(self, st, ctx, var, typ, s):
        out = frozenset(t for t in st if not (isinstance(t, tuple) and t[:2] == ("flag", var)))
        if "bool" in typ and konst(s) in (0, 1):
            out = out | {("flag", var, konst(s))}
        return [out] if out != st else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] != "v":
            return None
        out = frozenset(t for t in st if not (isinstance(t, tuple) and t[:2] == ("flag", lhs[1])))
        if op == "=" and konst(rhs) in (0, 1):
            out = out | {("flag", lhs[1], konst(rhs))}
        return [out] if out != st else None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "v" and ("flag", s[1], 0 if p else 1) in st:
                return []
        r = super().on_branch(st, ctx, facts)
        out = r[0] if r else st
        for s, p in facts:
            e = eq_sides(s)
            if e and p and any(konst(x) == 0 for x in e) and any(callname(x) == "size" for x in e) or callname(s) == "empty" and p:
                out = out | {"left"}
            if s[0] == "o" and s[1] == "<" and not p and callname(s[2]) == "size" and (self.an.kval(s[3]) or 0) >= max(100, int(self.an.P.globals.get("BEES_MAX_EXTENT_REF_COUNT", {}).get("v", 100))):
                out = out | {"left"}
            if e and p and any(x[0] == "v" and self.iterator(x[1]) for x in e):
                out = out | {"looped"}
        return [out] if out != st else None

    def is_hand(self, st, ctx, name, recv, args):
        return super().is_hand(st, ctx, name, recv, args)

    def after_call(self, st, ctx, n, name, recv, args):
        if name.split("::")[-2:] in (["Task", "run"], ["Task", "idle"]) and recv is not None and has(recv, lambda x: x[0] == "lam" and x[1] in self.scan):
            return [st | {"run"}]
        return super().after_call(st, ctx, n, name, recv, args)

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack and not st & {"run", "left"}:
            self.report(ctx, "unqueued", "the references of an extent are not queued although there are some")
        return super().on_leave(st, ctx, kind)

    def from_at(self, var):
        ow = self.an.var_owner.get(var)
        for d in (ow[0].defs.get(var, ()) if ow else ()):
            if d[0] == "decl" and d[1] is not None and d[1] >= 0 and has(self.an.P.sym(ow[0], d[1]), lambda x: x[0] == "c" and last(x[1]) == "at" and "BtrfsTreeFetcher" in x[1]):
                return True
        return False

    def nocow(self, s, p):
        e = eq_sides(s)
        if e and any(konst(x) == 0 for x in e):
            s = [x for x in e if konst(x) != 0][0] if any(konst(x) != 0 for x in e) else s
            p = not p
        f, k = flag_fact(self.an, s, "inode_flags")
        return f is not None and p and k == 1

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("Task", "TaskState", "BeesCrawl", "BeesContext", "MultiLocker", "BtrfsTreeItem", "BtrfsTreeFetcher", "BtrfsInodeFetcher")


def add(l, m, v, drop):
    r = {k: x for k, x in l.items() if k != drop}
    for k, x in m.items():
        r[k] = r.get(k, 0) + v * x
    return {k: x for k, x in r.items() if x}


def range_part(an, s):
    """begin() or end() of a range constructed in place: what it was given"""
    if s[0] == "c" and callname(s) in ("begin", "end", "size") and s[2] is not None and s[1].startswith("BeesFileRange::"):
        r = peel1(s[2])
        if r[0] == "v":
            ow = an.var_owner.get(r[1])
            ds = [d for d in (ow[0].defs.get(r[1], ()) if ow and ow[1] == "local" else ()) if not (d[0] == "method" and d[2].get("cm"))]
            if len(ds) == 1 and ds[0][0] == "decl" and ds[0][1] is not None and ds[0][1] >= 0:
                r = an.P.sym(ow[0], ds[0][1])
        if r[0] == "ctor" and last(r[1]) == "BeesFileRange" and len(r[2]) == 3:
            if callname(s) == "size":
                return ("o", "-", r[2][2], r[2][1])
            return peel1(r[2][1 if callname(s) == "begin" else 2])
    return s


class FilePass(Passed):
    names = ("BtrfsTreeFetcher::lower_bound", "BeesContext::scan_forward", "BeesContext::is_blacklisted", "*::file_extent_type")
    fields = ("BeesFileCrawl::m_offset",)

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("Task", "TaskState", "BeesCrawl", "BeesContext", "BeesRoots", "BeesFileRange", "Exclusion") or fn.short.startswith("Btrfs")

    def is_start(self, ctx, name, recv):
        return name == "BtrfsTreeFetcher::lower_bound"

    def is_hand(self, st, ctx, name, recv, args):
        return name == "BeesContext::scan_forward"

    def reason(self, st, s, p):
        e = eq_sides(s)
        if e:
            for a, b in (e, e[::-1]):
                k = self.an.kval(b)
                if self.of(st, a, "file_extent_type") and k is not None:
                    if p:
                        return True if k not in (REG, PREALLOC) else None
                    no = {REG, PREALLOC} - {k}
                    if ("fact", "type") in st:
                        pass
                    if all(("fact", "not", x) in st for x in no):
                        return True
                    return ("fact", "not", k)
                if self.of(st, a, "file_extent_bytenr") and k == 0 and p:
                    return True
        if self.of(st, s, "file_extent_bytenr") and not p:
            return True
        if callname(s) == "is_blacklisted" and p:
            return True
        if s[0] == "o" and s[1] == "<" and len(s) == 4 and p:
            a, b = peel1(s[2]), peel1(s[3])
            if self.of(st, a, "file_extent_generation") and is_field(b, BCS + "m_min_transid") or is_field(a, BCS + "m_max_transid") and self.of(st, b, "file_extent_generation"):
                return True
        return None

    def step(self, st, s):
        """an offset up to which nothing but the current extent lies"""
        s = range_part(self.an, peel1(s))
        if s[0] == "c" and last(s[1]) in ("max", "min") and s[3]:
            return all(self.step(st, x) for x in s[3])
        l = lin(s)
        off = 0
        for k, v in list(l.items()):
            if k != 1 and range_part(self.an, k) != k:
                l = add(l, lin(range_part(self.an, k)), v, k)
        for k, v in l.items():
            if k == 1:
                if v not in (0, 1):
                    return False
            elif self.of(st, k, "offset"):
                off += v
            elif callname(peel1(k)) in ("block_size",) or self.of(st, k, "file_extent_logical_bytes"):
                if v != 1:
                    return False
            else:
                return False
        return off == 1 and len([k for k in l if k != 1]) <= 2

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if is_field(lhs, "BeesFileCrawl::m_offset"):
            self.instances.add((ctx.fn.id, ctx.node))
            if op != "=" or not self.step(st, rhs):
                self.report(ctx, "jump", "the next search in the file begins past the extent that follows")
        return None


def contains_loop_over(f, an, what):
    return any(n and n["k"] == "ref" and what in str(n.get("n", "")) for n in f.nodes)


def c20(an, R):
    P = an.P
    # -------------------------------------------------- the table
    R.rule("tiers", "the size ranges of the tiers start at zero, adjoin without gap or overlap, have no upper end, and their keys are distinct and are no subvolume's", 4)
    nm, rows, g = tier_table(an)
    if nm is None:
        raise AnalysisBroken("the table of size tiers was not found")
    where = "%s:%s" % (g["file"], g["line"])
    if rows is None or any(len(r) != 3 for r in rows):
        raise AnalysisBroken("the table of size tiers cannot be read")
    rs = sorted((lo, hi, k) for k, lo, hi in rows)
    R.check(rs[0][0] <= 1, "the smallest tier begins at zero", "low", where, "extents shorter than %d bytes belong to no size tier" % rs[0][0])
    R.check(rs[-1][1] >= 2 ** 62, "the largest tier has no end", "high", where, "extents longer than %d bytes belong to no size tier" % rs[-1][1])
    for a, b in zip(rs, rs[1:]):
        R.check(b[0] == a[1] + 1, "tiers adjoin at %d" % b[0], "gap:%d" % a[1], where, "size tiers ending at %d and beginning at %d leave a gap or overlap" % (a[1], b[0]))
        R.check(b[0] % 4096 == 1 or b[0] % 4096 == 0 and False or b[0] % 4096 != 0, "minimum %d can be rounded down" % b[0], "round:%d" % b[0], where, "the minimum is a multiple of the block size, so that a search forward could pass an extent of exactly that size")
    ids = [k for _, _, k in rs]
    R.check(len(set(ids)) == len(ids), "keys are distinct", "keys", where, "two size tiers share a position record")
    R.check(all(0 < k < 256 and k not in range(0, 14) for k in ids), "keys are no tree's", "tree", where, "a size tier uses the number of a real tree")
    # -------------------------------------------------- every tier exists and runs
    R.rule("all-tiers", "every tier of the table is created with its own range and position record, and every scan pass that is not throttled starts all of them", 4)
    inits = {}
    for f in P.fns.values():
        for i, n in f.calls():
            if n["k"] in ("call", "ctor") and (n["k"] == "ctor" and last(short(n["n"])) == "SizeTier" or last(short(n.get("n", ""))) in ("make_shared", "make_unique", "allocate_shared")) and "SizeTier" in n.get("t", "") and len(n.get("a", ())) == 3:
                inits.setdefault(f.id, []).append(i)
    inits = {k: v for k, v in inits.items() if P.fns[k].cls and P.fns[k].cls.startswith("BeesScanMode")}
    if not inits:
        raise AnalysisBroken("no size tier is created")
    for fid, sites in inits.items():
        f = P.fns[fid]
        for i in sites:
            a = [an.canon(P.sym(f, x)) for x in f.nodes[i]["a"]]
            raw = [P.sym(f, x) for x in f.nodes[i]["a"]]
            pair = [element_part(an, raw[1]), element_part(an, raw[2])]
            good = pair[0] is not None and pair[1] is not None and pair[0][0] == pair[1][0] and (pair[0][1], pair[1][1]) == ("first", "second")
            R.check(good, "a tier gets its own key and range in %s" % f.short, "%s:own-range" % f.short, an.where(f, i), "a size tier is created with the size range of another one", f)
            # the crawl inserted for it
            ok = False
            for j in f.live_nodes():
                n = f.nodes[j]
                if n["k"] == "as" and n.get("op") == "=":
                    L = P.sym(f, n["L"])
                    if L[0] == "f" and L[2] == BCS + "m_root":
                        e = element_part(an, P.sym(f, n["R"]))
                        ok = ok or e is not None and pair[0] is not None and e == pair[0]
            R.check(ok, "a tier gets its own position record in %s" % f.short, "%s:own-crawl" % f.short, an.where(f, i), "the position record made for a size tier does not carry its key", f)

        def pred(typ):
            return "MagicCrawl" in typ

        def hand(me, st, ctx, name, recv, args):
            return recv is not None and is_field(peel1(recv), "BeesScanModeExtent::m_size_tiers") and last(name) in ("insert", "emplace", "operator[]")

        def excuse(me, st, s, p):
            e = eq_sides(s)
            return bool(e) and not p and any(x[0] == "c" and last(x[1]) in ("end", "cend") for x in e) or is_in(s, p)
        a, e = run(an, f, lambda: LoopAll(an, pred, hand, excuse), R, follow_dtors=False)
        if report_all(an, R, f, a) and R.check(a.n > 0 and a.handed > 0, "all tiers of the table created in %s" % f.short, "%s:none" % f.short, an.where(f), "tiers are not created for every entry of the table", f):
            pass
    scans = [f for f in P.fns.values() if f.cls == "BeesScanModeExtent" and any(n and n["k"] == "call" and last(short(n.get("n", ""))) in ("run_task",) for n in f.nodes)]
    if not scans:
        R.bad("run:none", "src/bees-roots.cc", "no scan pass starts the size tiers")
    for f in scans:
        def pred2(typ):
            return "SizeTier" in typ

        def hand2(me, st, ctx, name, recv, args):
            return last(name) in ("run_task", "find_next_extent") and recv is not None and any(has(recv, lambda x: x == i) for i in me.items(st))

        def leave2(me, st, s, p):
            return callname(s) == "find_next_extent" and p
        a, e = run(an, f, lambda: LoopAll(an, pred2, hand2, None, leave2), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("all tiers started in %s" % f.short, f)
        for i, n in f.calls():
            if last(short(n.get("n", ""))) == "run_task":
                c = an.container_of(P.sym(f, n["o"])) if "o" in n else None
                rr = an.roots(P.sym(f, n["o"])) if "o" in n else ()
                R.check(any(is_field(x, "BeesScanModeExtent::m_size_tiers") for x in rr) or c is not None and any(is_field(x, "BeesScanModeExtent::m_size_tiers") for x in list(walk(c)) + list(an.origins_sym(c, lambda x: is_field(x, "BeesScanModeExtent::m_size_tiers")))), "the tiers started in %s are all there are" % f.short, "%s:container" % f.short, an.where(f, i), "a scan pass does not go through the set of all size tiers", f)
    for f in P.fn(ST + "run_task"):
        a, e = run(an, f, lambda: MustCall(an, lambda name: name.split("::")[-2:] in (["Task", "run"], ["Task", "idle"])), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("run_task queues the tier's task", f)
    # -------------------------------------------------- extents
    R.rule("extent-passed", "a tier queues every extent it finds unless it is metadata or its length or generation lies outside the tier's range", 2)
    fns = {}
    for f, i, n in an.sites({"BtrfsTreeFetcher::lower_bound"}):
        if f.cls and f.cls.startswith("BeesScanModeExtent") and "o" in n and "BtrfsDataExtentTreeFetcher" in obj_type(an, f, n["o"]):
            fns[f.id] = f
    if not fns:
        R.bad("none", "src/bees-roots.cc", "no size tier searches the extent tree")
    for f in fns.values():
        mk, cur = extent_mk(an, f)
        a, e = run(an, f, mk, R, follow_dtors=False)
        ok = report_all(an, R, f, a)
        if ok:
            R.ok("extents found in %s (%d searches, %d hand-overs)" % (f.short, a.n, a.handed), f)
            R.check(a.handed > 0, "extents are queued in %s" % f.short, "%s:never" % f.short, an.where(f), "no extent is queued for scanning", f)
        R.rule("search-steps", "a tier's search starts at its saved position and goes on at the end of the extent found, or at an extent before which only shorter ones can lie", 2) if not any(x[0] == "search-steps" for x in R.rules) else None
        for v in cur:
            for d in f.defs.get(v, ()):
                if d[0] == "decl" and d[1] is not None and d[1] >= 0:
                    s = an.canon(P.sym(f, d[1]))
                    R.check(is_field(s, BCS + "m_objectid") and has(s, lambda x: x[0] == "c" and x[1] == END), "search starts at the saved position in %s" % f.short, "%s:start" % f.short, an.where(f), "the search does not start at the crawler's position", f, )
        R.check(a.nj > 0, "search moves on in %s (%d places)" % (f.short, a.nj), "%s:steps" % f.short, an.where(f), "the search does not move on", f)
    # -------------------------------------------------- references
    R.rule("refs", "every reference of a queued extent is scanned over its whole length unless its file has no checksums or no longer holds the extent", 4)
    for f in P.fn(ST + "create_extent_map"):
        a, e = run(an, f, lambda: RefPass(an), R, throw=False, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n > 0 and a.handed > 0, "references queued in %s" % f.short, "%s:none" % f.short, an.where(f), "the references of an extent are not queued", f)
        for g in [f] + [P.fns[l] for l in lam_nodes(an) if lam_nodes(an)[l][0].id == f.id]:
            for i in g.live_nodes():
                n = g.nodes[i]
                if n["k"] == "il" and "ExtentRef" in n.get("t", ""):
                    check_ref(an, R, g, i, n)
                elif n["k"] == "decl":
                    for v in n["d"]:
                        if strip_t(v["t"]).endswith("::ExtentRef") and not v["t"].endswith("&") and (g.nd(v.get("init", -1)) or {}).get("k") in (None, "ctor", "zero"):
                            check_set_ref(an, R, g, i, v["var"])
    for f in P.fn(ST + "scan_one_ref"):
        for i, n in f.calls():
            if n["k"] == "ctor" and short(n["n"]) == "BeesFileRange::BeesFileRange" and len(n["a"]) == 3 and not f.is_noise(i):
                s = [an.canon(P.sym(f, x)) for x in n["a"]]
                b = is_field(s[1], "*::m_offset")
                d = sub(lin(s[2]), lin(s[1]))
                good = s[1][0] == "f" and s[1][2].endswith("::m_offset") and len(d) == 1 and all(k != 1 and k[0] == "f" and k[2].endswith("::m_length") and v == 1 for k, v in d.items())
                R.check(good, "the whole reference is scanned in %s" % f.short, "%s:range" % f.short, an.where(f, i), "only part of a reference is scanned", f)
    # -------------------------------------------------- files
    R.rule("file-passed", "a file's scan hands on every extent unless it is inline, a hole, blacklisted, or outside the transaction range, and steps over nothing else", 2)
    for f in P.fn("BeesFileCrawl::scan_one_ref"):
        a, e = run(an, f, lambda: FilePass(an), R, throw=False, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("extents of a file in %s" % f.short, f)
            R.check(a.handed > 0, "extents of a file are scanned in %s" % f.short, "%s:never" % f.short, an.where(f), "no extent of a file is scanned", f)
        for i, n in f.calls():
            if n["k"] == "ctor" and short(n["n"]) == "BeesFileRange::BeesFileRange" and len(n["a"]) == 3 and not f.is_noise(i):
                s = [peel1(an.canon(P.sym(f, x))) for x in n["a"]]
                d = sub(lin(s[2]), lin(s[1]))
                good = callname(s[1]) == "offset" and len(d) == 1 and all(k != 1 and callname(peel1(k)) == "file_extent_logical_bytes" and v == 1 for k, v in d.items())
                R.check(good, "the whole extent is scanned in %s" % f.short, "%s:range" % f.short, an.where(f, i), "only part of a file's extent is scanned", f)
    return ["the kernel's tree search returns every item of the range asked for, in order", "extent lengths are multiples of the block size"]


class MustCall(NameAut):
    """a matching call on every path to the end"""

    def __init__(self, an, pred):
        super().__init__()
        self.an, self.pred = an, pred

    def initial(self):
        return False

    def relevant(self, fn, i, n):
        return n["k"] == "call" and self.pred(short(n.get("n", "")))

    def never_enter(self, fn):
        return noise(fn) or fn.short.split("::")[0] in ("Task", "TaskState")

    def on_call(self, st, ctx, n, name, recv, args):
        return [True] if self.pred(name) else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack and not st:
            self.report(ctx, "missing", "a path ends without the call")
        return None


def element_part(an, s):
    """(loop element var, 'first'|'second') of a map element's part"""
    s = peel1(s)
    while s[0] == "c" and callname(s) in ("move", "forward") and s[3]:
        s = peel1(s[3][0])
    if s[0] == "f" and last(s[2]) in ("first", "second"):
        return (s[1], last(s[2]))
    if s[0] == "v":
        ow = an.var_owner.get(s[1])
        if ow and ow[1] == "local":
            ds = ow[0].defs.get(s[1], ())
            if len(ds) == 1 and ds[0][0] == "decl" and ds[0][1] is not None and ds[0][1] >= 0:
                return element_part(an, an.P.sym(ow[0], ds[0][1]))
        if ow and ow[1] == "bind":
            x = ow[2]
            return (("bind", str(x.get("init"))), last(str(x.get("m", "")))) if x.get("m") else None
    return None


def obj_type(an, f, o):
    n = f.nodes[o]
    t = n.get("t", "")
    if n["k"] == "cast" and "s" in n:
        return t + " " + obj_type(an, f, n["s"])
    return t


def extent_mk(an, f):
    """factory of ExtentPass for f and the cursor variables of its search"""
    cur = set()
    for i, n in f.calls():
        if short(n.get("n", "")) == "BtrfsTreeFetcher::lower_bound" and len(n.get("a", ())) == 1:
            s = an.P.sym(f, n["a"][0], None, 0, False)
            if s[0] == "v":
                cur.add(s[1])

    def mk():
        a = ExtentPass(an)
        a.cur = cur
        return a
    return mk, cur


REF = {"m_root": ("m_root",), "m_inum": ("m_inum",), "m_offset": ("m_offset",), "m_length": ()}


def check_set_ref(an, R, f, i, var):
    """a reference filled in member by member"""
    sets = {}
    for j in f.live_nodes():
        n = f.nodes[j]
        if n["k"] == "as" and n["op"] == "=":
            L = an.P.sym(f, n["L"])
            if L[0] == "f" and L[1] == ("v", var):
                sets.setdefault(last(L[2]), []).append(an.P.sym(f, n["R"]))
    if not sets:
        return
    for x in ("m_root", "m_inum", "m_offset", "m_length"):
        if R.check(x in sets, "%s of a reference set" % x, "ref:%s" % x, an.where(f, i), "%s of a queued reference is never set" % x, f):
            for s in sets[x]:
                check_part(an, R, f, i, x, s)


def check_ref(an, R, f, i, n):
    rec = an.P.records.get("BeesScanModeExtent::ExtentRef", {})
    names = [x["name"] for x in rec.get("fields", ())]
    for x, a in zip(names, n["a"]):
        check_part(an, R, f, i, x, an.P.sym(f, a))


def check_part(an, R, f, i, x, s):
    s = peel1(an.canon(s))
    if x in ("m_root", "m_inum", "m_offset"):
        R.check(s[0] == "f" and last(s[2]) == x and "InodeOffsetRoot" in s[2], "%s of a reference" % x, "ref:%s" % x, an.where(f, i), "%s of a queued reference is not that of the reference found" % x, f)
    elif x == "m_length":
        R.check(callname(s) == "file_extent_logical_bytes", "length of a reference", "ref:m_length", an.where(f, i), "a queued reference does not have the length of the extent's part in the file", f)

"""C12 saved scan positions never pass unfinished work, C13 scan state survives
saving and loading, C14 orderly shutdown."""
from .common import *
from .linear import lin, sub
from .rules_dedupe import key_fn, _peel
from .rules_scan import run, report_all
from .engine import Engine
from .locks import mutex_class

HOLD = "BeesCrawl::hold_state"
SET = "BeesCrawl::set_state"
END = "BeesCrawl::get_state_end"
BEGIN = "BeesCrawl::get_state_begin"
GOOD = ("begin", "start", "item")
PT = "ProgressTracker::ProgressTrackerState::"


def peel1(s):
    while s and s[0] == "ctor" and len(s[2]) == 1:
        s = s[2][0]
    return s


def lam_nodes(an):
    """lambda id -> (creating fn, node)"""
    if getattr(an, "_lamn", None) is None:
        m = {}
        for f in an.P.fns.values():
            for n in f.nodes:
                if n and n["k"] == "lam":
                    for l in n["f"]:
                        m.setdefault(l, (f, n))
        an._lamn = m
    return an._lamn


def scanners(an, goal=("BeesContext::scan_forward",)):
    """functions and lambdas that (eventually, also through tasks they create) scan"""
    key = "_scanners" + ",".join(goal)
    if getattr(an, key, None) is None:
        P = an.P
        callees = {}
        for f in P.fns.values():
            s = set()
            for n in f.nodes:
                if not n:
                    continue
                if n["k"] in ("call", "ctor"):
                    s |= {t.id for t in P.targets(n)}
                elif n["k"] == "lam":
                    s |= set(n["f"])
            callees[f.id] = s
        res = {f.id for g in goal for f in P.fn(g)}
        ch = True
        while ch:
            ch = False
            for k, v in callees.items():
                if k not in res and v & res:
                    res.add(k)
                    ch = True
        setattr(an, key, res)
    return getattr(an, key)


def reachers(an, names):
    """ids of functions that reach one of the named functions by direct calls"""
    key = "_reachers" + ",".join(names)
    if getattr(an, key, None) is None:
        P = an.P
        res = {f.id for g in names for f in P.fn(g)}
        work = list(res)
        while work:
            x = work.pop()
            for c, i in P.callers.get(x, ()):
                if c.id not in res:
                    res.add(c.id)
                    work.append(c.id)
            o = P.lambda_owner.get(x)
            if o in P.fns and o not in res and not in_task(an, x):
                res.add(o)
                work.append(o)
        setattr(an, key, res)
    return getattr(an, key)


def in_task(an, lid):
    """the lambda is handed to a Task (runs later)"""
    f, n = lam_nodes(an).get(lid, (None, None))
    if f is None:
        return False
    for i, m in f.calls():
        if last(short(m.get("n", ""))) == "Task" and m["k"] == "ctor":
            for a in m.get("a", ()):
                if has(an.P.sym(f, a), lambda x: x[0] == "lam" and x[1] == lid):
                    return True
    return False


# --------------------------------------------------------------------- C12
class Hold(NameAut):
    """position holders around the hand-over of one item (extent or inode) to a
    scanning task.  tokens:
      ("pos", var, rank)   BeesCrawlState variable
      ("tmp", sym, rank)   holder just created
      ("h", sym, rank)     holder stored in a variable (or an object in it)
      ("item", sym), ("adv",), ("gap",)
    ranks: start (position before the item), item, next (end of the item), bad"""
    names = (HOLD, SET, END, "*::lower_bound", "BeesCrawl::pop_front", "crucible::Task::run", "Task::run", "std::swap")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.moves = {f.short for f in (an.P.fns[x] for x in reachers(an, (SET,)))} - {SET}
        self.scan = scanners(an)
        self.ntask = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        c = fn.short.split("::")[0]
        return c in ("BeesCrawl", "Task", "TaskState", "BtrfsTreeFetcher", "BtrfsDataExtentTreeFetcher", "BeesContext", "BeesNote", "BeesTracer",
                     "BeesTooLong", "Chatter", "BtrfsIoctlSearchKey", "Exclusion", "BtrfsExtentItemFetcher") or "operator<<" in fn.short or fn.short.startswith("seek_backward")

    # ranks
    def pos_rank(self, st, s):
        s = peel1(s)
        if s[0] == "c" and s[1] == END:
            return "bad" if ("adv",) in st else "start"
        if s[0] == "c" and s[1] == BEGIN:
            return "bad" if any(t[0] == "item" for t in st) else "begin"
        for t in st:
            if t[0] == "pos" and ("v", t[1]) == s:
                return t[2]
        return "bad"

    def oid_rank(self, st, r):
        """rank of a position whose objectid is r"""
        items = [t[1] for t in st if t[0] == "item"]
        r = peel1(r)
        if konst(r) == 0:
            return "start"
        if r[0] == "c" and last(r[1]) in ("objectid", "ino") and any(has(r, lambda x: x == i) for i in items):
            return "item"
        if r[0] == "f" and last(r[2]) == "m_objectid":
            return self.pos_rank(st, r[1])
        l = lin(r)
        if l and items:
            t, c = {k: v for k, v in l.items() if k != 1}, l.get(1, 0)
            if c == 0 and len(t) == 2 and all(v == 1 for v in t.values()):
                nm = sorted(last(k[1]) if k[0] == "c" else "" for k in t)
                if nm == ["objectid", "offset"] and all(any(has(k, lambda x: x == i) for i in items) for k in t):
                    return "next"
        return "bad"

    @staticmethod
    def ok(st):
        return any(t[0] in ("h", "tmp") and t[2] in GOOD for t in st)

    def drop(self, st):
        """after holders were removed"""
        if not self.ok(st) and any(t[0] == "item" for t in st) and any(t[0] == "h" for t in st):
            return st | {("gap",)}
        return st

    def after_call(self, st, ctx, n, name, recv, args):
        if name == HOLD or name == SET:
            self.instances.add((ctx.fn.id, ctx.node))
            rank = self.pos_rank(st, args[0]) if args else "bad"
            out = st
            if rank in ("next", "bad") and any(t[0] == "item" for t in st) and not any(t[0] == "h" and t[2] in GOOD for t in st):
                out = out | {("gap",)}
            if name == HOLD:
                out = out | {("tmp", ctx.sym(ctx.node), rank)}
            return [out]
        if name == "BeesCrawl::pop_front" or last(name) == "lower_bound" and not name.startswith("std::"):
            s = set()
            for t in st:
                if t[0] in ("h", "pos") and t[2] in ("item", "next"):
                    t = (t[0], t[1], "start")
                if t[0] in ("item", "gap", "tmp"):
                    continue
                s.add(t)
            s.add(("item", ctx.sym(ctx.node)))
            if name == "BeesCrawl::pop_front":
                s.add(("adv",))
                if not any(t[0] == "h" and t[2] == "begin" for t in st):
                    s.add(("gap",))
                s = {(t[0], t[1], "bad") if t[0] in ("pos", "h") and t[2] == "start" else t for t in s}
            return [frozenset(s)]
        if name in self.moves and name != HOLD and name.startswith("BeesCrawl::"):
            return [frozenset((t[0], t[1], "bad") if t[0] in ("pos", "h") and t[2] == "start" else t for t in st if t[0] != "tmp") | {("adv",)}]
        if name == "std::swap" and len(args) == 2:
            m = {args[0]: args[1], args[1]: args[0]}
            return [frozenset((t[0], m.get(t[1], t[1]), t[2]) if t[0] == "h" else t for t in st)]
        if last(name) == "reset" and recv is not None and any(t[0] == "h" and t[1] == recv for t in st):
            return [self.drop(frozenset(t for t in st if not (t[0] == "h" and t[1] == recv)))]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) == "run" and "Task" in name and recv is not None:
            if any(t[0] == "task" and t[1] == recv for t in st):
                cap = [t[2] for t in st if t[0] == "task" and t[1] == recv]
            else:
                r = self.task(st, ctx, recv)
                if r is None:
                    return None
                cap = [r]
            self.ntask += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not any(c in GOOD for c in cap):
                self.report(ctx, "unheld-task", "work is handed to a task that does not hold a scan position at or before it")
            elif ("gap",) in st:
                self.report(ctx, "gap", "the scan position moves past an item before a position at or before it is held for the item's scan")
            return [frozenset(t for t in st if t[0] not in ("item", "gap"))]
        return None

    def task(self, st, ctx, s):
        """None: not a scanning task; else the best rank of the holders its function captured"""
        best = None
        found = []
        has(s, lambda x: found.append(x[1]) if x[0] == "lam" and x[1] in self.scan else False)
        for l in found:
            best = best or "none"
            f, n = lam_nodes(self.an).get(l, (None, None))
            for c in (n or {}).get("caps", ()):
                v = c.get("var")
                if v is None or c.get("ref"):
                    continue
                srcs = {("v", v)}
                env = ctx.env or {}
                if v in env:
                    srcs.add(env[v])
                for t in st:
                    if t[0] in ("h", "tmp") and (t[1] in srcs or any(has(x, lambda y: y == t[1]) for x in srcs)):
                        if best in ("none", "bad", "next"):
                            best = t[2]
        return best

    def on_bind(self, st, ctx, var, typ, s):
        out = set(t for t in st if not (t[0] in ("pos", "h", "task") and t[1] in (var, ("v", var))))
        if "BeesCrawlState" in typ and "ProgressTracker" not in typ:
            out.add(("pos", var, self.pos_rank(st, s)))
            return [frozenset(out)]
        hs = [t for t in st if t[0] in ("tmp", "h") and (t[1] == s or has(s, lambda x: x == t[1]))]
        if "Task" in strip(typ) and "function" not in typ:
            r = self.task(st, ctx, s)
            if r is not None:
                out.add(("task", ("v", var), r))
        elif hs and not has(s, lambda x: x[0] == "lam"):
            for t in hs:
                out.add(("h", ("v", var), t[2]))
        if any(t[0] == "item" and t[1] == peel1(s) for t in st):
            out.add(("item", ("v", var)))
        r = frozenset(t for t in out if t[0] != "tmp")
        r = self.drop(r) if len(r) < len(st) else r
        return [r] if r != st else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and lhs[2].startswith("BeesCrawlState::") and lhs[1][0] == "v":
            v = lhs[1][1]
            if last(lhs[2]) == "m_objectid":
                r = self.oid_rank(st, rhs) if op == "=" else "bad"
                return [frozenset(t for t in st if not (t[0] == "pos" and t[1] == v)) | {("pos", v, r)}]
            if last(lhs[2]) == "m_offset":
                items = [t[1] for t in st if t[0] == "item"]
                good = konst(rhs) == 0 or rhs[0] == "c" and last(rhs[1]) in ("begin", "offset") and any(has(rhs, lambda x: x == i) for i in items)
                if op != "=" or not good:
                    return [frozenset((t[0], t[1], "bad") if t[0] == "pos" and t[1] == v and t[2] != "next" else t for t in st)]
            return None
        if op != "=":
            return None
        if lhs[0] == "v" and any(t[0] == "pos" and t[1] == lhs[1] for t in st):
            return [frozenset(t for t in st if not (t[0] == "pos" and t[1] == lhs[1])) | {("pos", lhs[1], self.pos_rank(st, rhs))}]
        hs = [t for t in st if t[0] in ("tmp", "h") and (t[1] == rhs or has(rhs, lambda x: x == t[1]))]
        if hs or any(t[0] == "h" and t[1] == lhs for t in st):
            out = set(t for t in st if not (t[0] == "h" and t[1] == lhs) and t[0] != "tmp")
            for t in hs:
                out.add(("h", lhs, t[2]))
            return [self.drop(frozenset(out))]
        return None

    def on_dtor(self, st, ctx, e, s):
        if any(t[0] == "h" and t[1] == s for t in st):
            return [self.drop(frozenset(t for t in st if not (t[0] == "h" and t[1] == s)))]
        return None


def strip(t):
    return t.replace("const ", "").replace("crucible::", "").strip()


class Peek(NameAut):
    """the item a crawler has fetched but not handed out: the position moves past
    it only while a holder at it is stored, which is kept until it was taken"""
    names = (SET, HOLD, "*::reset", "*::operator bool", "*::operator!", "std::swap")
    fields = ("BeesCrawl::m_next_hold", "BeesCrawl::m_next_extent_data")

    @staticmethod
    def item(s):
        return bool(s) and s[0] == "f" and s[2] == "BeesCrawl::m_next_extent_data"

    @staticmethod
    def nh(s):
        return bool(s) and s[0] == "f" and s[2] == "BeesCrawl::m_next_hold"

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.nset = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short in (SET, HOLD) or "operator<<" in fn.short or fn.short.split("::")[0] not in ("BeesCrawl",) and not fn.is_lambda

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            while s and s[0] == "c" and last(s[1]).startswith("operator") and s[2] is not None:
                if last(s[1]) == "operator!":
                    p = not p
                s = s[2]
            if self.item(s):
                return [st - {"wait", "none"} | {"wait" if p else "none"}]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if self.item(lhs):
            return [st - {"none", "held"} | {"wait"}]
        if lhs[0] == "f" and lhs[2].startswith("BeesCrawlState::") and lhs[1][0] == "v":
            if last(lhs[2]) == "m_objectid":
                r = peel1(rhs)
                ok = r[0] == "c" and last(r[1]) == "objectid" and self.item(r[2]) or konst(r) == 0
                return [frozenset(t for t in st if t != ("at", lhs[1][1])) | ({("at", lhs[1][1])} if ok else set())]
            if last(lhs[2]) == "m_offset" and konst(peel1(rhs)) != 0:
                return [st - {("at", lhs[1][1])}]
            return None
        if self.nh(lhs):
            self.instances.add((ctx.fn.id, ctx.node))
            if "none" not in st and not ("wait" in st and "held" not in st and "fresh" in st):
                if not any(t[0] == "hold" and has(rhs, lambda x: x == t[1]) and t[2] for t in st if isinstance(t, tuple)):
                    self.report(ctx, "dropped", "the holder at a fetched item that was not handed out yet is dropped")
            for t in st:
                if isinstance(t, tuple) and t[0] == "hold" and (has(rhs, lambda x: x == t[1])):
                    return [frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == "hold")) - {"held"} | ({"held"} if t[2] else set())]
            return [st - {"held"}]
        return None

    def after_call(self, st, ctx, n, name, recv, args):
        if name == HOLD and args:
            a = peel1(args[0])
            ok = a[0] == "v" and ("at", a[1]) in st
            return [frozenset(t for t in st if not (isinstance(t, tuple) and t[0] == "hold")) | {("hold", ctx.sym(ctx.node), ok)}]
        if name == SET:
            self.nset += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if "wait" in st and "held" not in st:
                self.report(ctx, "peeked", "the position moves past a fetched item while no holder at it is kept for it")
            return None
        if last(name) == "reset" and self.nh(recv):
            self.instances.add((ctx.fn.id, ctx.node))
            if "none" not in st:
                self.report(ctx, "dropped", "the holder at a fetched item that was not handed out yet is dropped")
            return [st - {"held"}]
        if name == "std::swap" and any(self.item(x) for x in args):
            return [st - {"wait", "none"}]
        return None


class Tracker(NameAut):
    """a holder's constructor and destructor keep m_begin the smallest held
    position (or the end when nothing is held) and m_end from going back"""
    names = ("*::insert", "*::erase", "*::empty")
    fields = (PT + "m_begin", PT + "m_end", PT + "m_in_progress")

    def __init__(self, an, want):
        super().__init__()
        self.an = an
        self.want = want
        self.n = 0

    def initial(self):
        return frozenset()

    def inprog(self, s):
        return s is not None and s[0] == "f" and s[2] == PT + "m_in_progress"

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if self.inprog(recv) and l in ("insert", "erase", "emplace", "clear", "extract"):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if l != self.want or not args or not has(args[0], lambda x: x == ("this",)):
                self.report(ctx, "set", "the set of held positions is not updated by exactly this holder's own entry")
            new = {("stale",)}
            if l == "insert":
                new |= {("full",), ("endstale",)}
            return [frozenset(t for t in st if t[0] not in ("empty", "full")) | new]
        return None

    def on_branch(self, st, ctx, facts):
        add = set()
        for s, p in facts:
            if s[0] == "c" and last(s[1]) == "empty" and self.inprog(s[2]):
                add.add(("empty",) if p else ("full",))
            e = eq_sides(s)
            if e:
                for a, b in (e, e[::-1]):
                    if a[0] == "c" and last(a[1]) == "size" and self.inprog(a[2]) and konst(b) == 0:
                        add.add(("empty",) if p else ("full",))
                    if a[0] == "c" and last(a[1]) == "begin" and self.inprog(a[2]) and b[0] == "c" and last(b[1]) == "end" and self.inprog(b[2]):
                        add.add(("empty",) if p else ("full",))
            if s[0] == "o" and s[1] == "<" and s[2][0] == "f" and s[2][2] == PT + "m_end":
                add.add(("less",) if p else ("notless",))
                if not p:
                    st = st - {("endstale",)}
        return [st | add] if add else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] != "f" or not lhs[2].startswith(PT):
            return None
        fld = last(lhs[2])
        rhs = peel1(rhs)
        self.instances.add((ctx.fn.id, ctx.node))
        if fld == "m_begin":
            first = rhs[0] == "f" and last(rhs[2]) == "first" and self.first(rhs[1])
            end = rhs[0] == "f" and rhs[2] == PT + "m_end"
            if not (first and ("full",) in st or end and ("empty",) in st):
                if rhs[0] == "o" and rhs[1] == "?:":
                    c, a, b = rhs[2], peel1(rhs[3]), peel1(rhs[4])
                    if c[0] == "c" and last(c[1]) == "empty" and self.inprog(c[2]) and a[0] == "f" and a[2] == PT + "m_end" \
                            and b[0] == "f" and last(b[2]) == "first" and self.first(b[1]):
                        return [st - {("stale",)}]
                self.report(ctx, "begin", "the reported oldest position is not the smallest one held (or the end position when none is held)")
            return [st - {("stale",)}]
        if fld == "m_end":
            mx = rhs[0] == "c" and last(rhs[1]) == "max" and any(x[0] == "f" and x[2] == PT + "m_end" for x in rhs[3])
            if not (mx or ("less",) in st and rhs[0] == "f" and last(rhs[2]) == "m_value" or ("less",) in st and rhs[0] == "v"):
                self.report(ctx, "end", "the newest position can move backwards")
            return [st - {("endstale",)}]
        return None

    def first(self, s):
        return s[0] == "c" and last(s[1]) in ("begin", "cbegin") and self.inprog(s[2])

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if ("stale",) in st:
            self.report(ctx, "stale", "the oldest held position is not recomputed after the set of held positions changed")
        if ("endstale",) in st:
            self.report(ctx, "endstale", "the newest position is not advanced to a position taken beyond it")
        return None


class Retry(NameAut):
    """a lambda working through a list of references: a reference whose scan asked
    to be repeated is back on the list when the step ends, and the task is run
    again while the list is not empty"""
    names = ("BeesScanModeExtent::SizeTier::scan_one_ref", "*::pop_front", "*::push_front", "*::push_back", "*::empty", "*::run", "*::begin", "*::front")
    SCAN = "BeesScanModeExtent::SizeTier::scan_one_ref"

    def __init__(self, an, root):
        super().__init__()
        self.an = an
        self.n = 0
        # the lists of references: what elements are taken from, here or in nested functions
        self.lists = set()
        for f in [root] + an.P.lambdas_of(root.id):
            for i, m in f.calls():
                if "o" in m and last(short(m.get("n", ""))) in ("pop_front", "pop_back", "erase") and short(m["n"]).startswith("std::"):
                    self.lists.add(an.P.sym(f, m["o"]))

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short.split("::")[0] in ("Task", "TaskState", "BeesContext", "std") or fn.short == self.SCAN or "operator<<" in fn.short

    def ignore_exc(self, ctx, n, name):
        return name != self.SCAN and name.startswith(("std::", "Task", "crucible::"))

    def is_list(self, s):
        return s in self.lists

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            if s[0] == "c" and s[1] == self.SCAN or has(s, lambda x: x[0] == "c" and len(x) == 4 and x[1] == self.SCAN) and s[0] == "v":
                if p:
                    out.add(("again", peel1(s[3][0])))
                out.discard(("scan",))
            if s[0] == "c" and last(s[1]) == "empty" and len(s) == 4 and self.is_list(s[2]):
                out = {t for t in out if t[0] not in ("empty", "full")}
                out.add(("empty",) if p else ("full",))
            if s[0] == "v" and ("res", s[1]) in st and p is not None:
                if p:
                    for t in st:
                        if t[0] == "res" and t[1] == s[1]:
                            out.add(("again", t[2] if len(t) > 2 else None))
        return [frozenset(out)] if out != st else None

    def after_call(self, st, ctx, n, name, recv, args):
        if name == self.SCAN:
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {("scan",)}]
        if last(name) in ("push_front", "push_back", "emplace_front", "emplace_back") and self.is_list(recv) and any(t[0] == "again" for t in st):
            return [frozenset(t for t in st if t[0] != "again") | {("full",)}]
        if last(name) in ("pop_front", "pop_back", "erase") and self.is_list(recv):
            return [frozenset(t for t in st if t[0] not in ("empty", "full"))]
        if last(name) == "run" and "Task" in name:
            return [st | {("ran",)}]
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if any(t[0] == "again" for t in st):
            self.report(ctx, "forgotten", "a reference whose scan has to be repeated is not put back on the list")
        if ("scan",) in st and False:
            pass
        if ("full",) in st and ("ran",) not in st and ("empty",) not in st:
            self.report(ctx, "abandoned", "the task ends without being run again although references are left")
        return None


class Busy(NameAut):
    """a scan that could not take its lock asks to be repeated"""
    names = ("Exclusion::try_lock", "BeesContext::scan_forward", "*::operator bool")

    def __init__(self, an, retvals):
        super().__init__()
        self.an = an
        self.retvals = retvals
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        if self.skip(fn) or "operator<<" in fn.short:
            return True
        if fn.is_lambda:
            return False
        c = fn.short.split("::")[0]
        if c == "BeesContext":
            return not any(short(m.get("n", "")) == "Exclusion::try_lock" for x in [fn] + self.an.P.lambdas_of(fn.id) for i, m in x.calls())
        return c in ("Task", "TaskState", "Exclusion", "ExclusionState", "Barrier")

    def skip(self, fn):
        return fn.short == "BeesContext::scan_one_extent"

    def ignore_exc(self, ctx, n, name):
        return True

    def is_lock(self, s):
        while s and s[0] == "c" and last(s[1]).startswith("operator") and s[2] is not None:
            s = s[2]
        if s[0] == "v":
            # declared first, taken later
            o = self.an.var_owner.get(s[1])
            r = [x for x in self.an._local_defs(o[0], s[1]) if not (x[0] == "ctor" and not x[2])] if o and o[1] == "local" else []
            return bool(r) and all(x[0] == "c" and x[1] == "Exclusion::try_lock" for x in r)
        return s[0] == "c" and s[1] == "Exclusion::try_lock"

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            if self.is_lock(s):
                self.n += 1
                if not p:
                    out.add(("busy",))
            for t in st:
                if t[0] == "val" and s == ("v", t[1]) and t[2] is not None and t[2] != p:
                    return []
        return [frozenset(out)] if out != st else None

    def _set(self, st, var, s):
        k = konst(s)
        v = None if k is None else bool(k)
        return frozenset(t for t in st if not (t[0] == "val" and t[1] == var)) | {("val", var, v)}

    def on_bind(self, st, ctx, var, typ, s):
        if typ.replace("const ", "") == "bool":
            return [self._set(st, var, s)]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and any(t[0] == "val" and t[1] == lhs[1] for t in st):
            return [self._set(st, lhs[1], rhs if op == "=" else ("?",))]
        return None

    def on_return(self, st, ctx, n, s):
        if ctx.stack:
            return None
        s = peel1(s)
        v = None
        k = konst(s)
        if k is not None:
            v = bool(k)
        for t in st:
            if t[0] == "val" and s == ("v", t[1]):
                v = t[2]
        if ("busy",) in st and v is False:
            self.report(ctx, "gave-up", "a scan that could not take its lock reports that it is finished")
        return None


class Filled(NameAut):
    """a queued reference that is filled in member by member has its holder set"""
    names = ("*::push_back", "*::emplace_back", "*::push_front", "*::insert", "*::emplace")
    fields = ("m_hold",)

    def __init__(self, an, vs):
        super().__init__()
        self.an = an
        self.vs = {("v", v) for v in vs}
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return True

    def on_bind(self, st, ctx, var, typ, s):
        return [st - {("v", var)}]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and last(lhs[2]) == "m_hold" and lhs[1] in self.vs:
            ok = any(x[0] == "v" and "ProgressHolder" in vtype(self.an, x[1]) for x in walk(rhs))
            return [st | {lhs[1]} if ok else st - {lhs[1]}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if n.get("op") == "=" and recv is not None:
            return self.on_assign(st, ctx, n, recv, args[0], "=") if args else None
        for a in args:
            for x in walk(a):
                if x in self.vs and last(name) in ("push_back", "emplace_back", "push_front", "insert", "emplace"):
                    self.n += 1
                    if x not in st:
                        self.report(ctx, "no-hold", "a reference is queued for scanning without the extent's position being held")
        return None


class Ref(NameAut):
    """BeesFileCrawl: the position inside the file moves past a reference only
    when its scan is finished; the file's hold moves only to the scanned reference"""
    names = ("BeesContext::scan_forward", HOLD)
    fields = ("BeesFileCrawl::m_offset", "BeesFileCrawl::m_hold")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return fn.short.split("::")[0] in ("BeesContext", "BeesCrawl", "BtrfsTreeFetcher", "BtrfsDataExtentTreeFetcher", "Exclusion", "BeesRoots") or "operator<<" in fn.short

    def on_bind(self, st, ctx, var, typ, s):
        out = frozenset(t for t in st if t[0] not in ("val", "pos", "h") or t[1] != var)
        if typ.replace("const ", "") == "bool":
            k = konst(s)
            if k is not None:
                out = out | {("val", var, bool(k))}
            elif has(s, lambda x: x[0] == "c" and x[1] == "BeesContext::scan_forward"):
                out = out | {("val", var, "scan")}
        if "ProgressHolder" in typ:
            for t in st:
                if t[0] == "hold" and (t[1] == s or has(s, lambda x: x == t[1])):
                    out = out | {("h", var, t[2])}
        return [out] if out != st else None

    def after_call(self, st, ctx, n, name, recv, args):
        if name == HOLD and args:
            a = peel1(args[0])
            r = "bad"
            for t in st:
                if t[0] == "off" and a == ("v", t[1]):
                    r = t[2]
            return [frozenset(t for t in st if t[0] != "hold") | {("hold", ctx.sym(ctx.node), r)}]
        if name == "BeesContext::scan_forward":
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [frozenset(st | {("again",)}), frozenset(st | {("fin",)})]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v":
            for t in st:
                if t[0] == "val" and t[1] == lhs[1]:
                    v = "?"
                    k = konst(rhs)
                    if k is not None:
                        v = bool(k)
                    elif rhs[0] == "c" and rhs[1] == "BeesContext::scan_forward":
                        v = "scan"
                    return [st - {t} | {("val", lhs[1], v)}]
            return None
        if lhs[0] == "f" and lhs[2] == "BeesCrawlState::m_offset" and lhs[1][0] == "v":
            r = peel1(rhs)
            good = konst(r) == 0 or r[0] == "c" and last(r[1]) in ("begin", "offset")
            return [frozenset(t for t in st if not (t[0] == "off" and t[1] == lhs[1][1])) | {("off", lhs[1][1], "item" if good else "bad")}]
        if lhs == ("f", ("this",), "BeesFileCrawl::m_offset"):
            self.instances.add((ctx.fn.id, ctx.node))
            r = peel1(rhs)
            if r[0] == "c" and last(r[1]) in ("offset", "begin"):
                return [st - {("moved",)}]
            return [st | {("moved",)}]
        if lhs == ("f", ("this",), "BeesFileCrawl::m_hold"):
            self.instances.add((ctx.fn.id, ctx.node))
            r = peel1(rhs)
            ok = any(t[0] == "h" and r == ("v", t[1]) and t[2] == "item" or t[0] == "hold" and t[1] == r and t[2] == "item" for t in st)
            if not ok:
                self.report(ctx, "hold-past", "the position held for a file being scanned is moved beyond the reference being scanned")
        return None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "c" and s[1] == "BeesContext::scan_forward":
                if ("again",) in st and not p or ("fin",) in st and p:
                    return []
            for t in st:
                if t[0] == "val" and s == ("v", t[1]):
                    if t[2] == "scan":
                        if ("again",) in st and not p or ("fin",) in st and p:
                            return []
                    elif t[2] in (True, False) and t[2] != p:
                        return []
        return None

    def on_leave(self, st, ctx, kind):
        if ctx.stack or kind != "ret":
            return None
        if ("again",) in st and ("moved",) in st:
            self.report(ctx, "skipped", "a reference whose scan has to be repeated is passed over")
        return None


def c12(an, R):
    P = an.P
    R.rule("oldest-position", "the tracker reports the smallest held position, the end position only when nothing is held, and never moves the end back", 2)
    ctor = P.fn("ProgressTracker::ProgressHolderState::ProgressHolderState")
    dtor = P.fn("ProgressTracker::ProgressHolderState::~ProgressHolderState")
    if not ctor or not dtor:
        raise AnalysisBroken("the progress tracker's holder was not found")
    for f, w in [(x, "insert") for x in ctor if len(x.params) == 2] + [(x, "erase") for x in dtor]:
        a, e = run(an, f, lambda: Tracker(an, w), R)
        if report_all(an, R, f, a):
            R.check(a.n > 0, "%s keeps the oldest position" % f.short, "%s:none" % f.short, an.where(f), "the set of held positions is not updated", f)
    for fld in ("m_begin", "m_end", "m_in_progress"):
        for f, r, kind, i in an.field_writes.get(PT + fld, ()):
            if kind == "init" or f.d.get("ctor") and f.cls == "ProgressTracker":
                continue
            R.check("ProgressHolderState" in f.short, "%s written in %s" % (fld, f.short), "%s:%s" % (f.short, fld), an.where(f, i),
                    "the tracked positions are changed outside the holder's constructor and destructor", f)
    for nm, fld in (("begin", "m_begin"), ("end", "m_end")):
        for f in P.fn("ProgressTracker::" + nm):
            for i in f.live_nodes():
                if f.nodes[i]["k"] == "ret":
                    s = peel1(P.sym(f, f.nodes[i]["s"]))
                    R.check(s[0] == "f" and s[2] == PT + fld, "%s() reports %s" % (nm, fld), "%s:value" % f.short, an.where(f, i), "the tracker reports another position", f)
    for f in ctor + dtor + P.fn("ProgressTracker::begin") + P.fn("ProgressTracker::end"):
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] == "mem" and short(n["fd"]).startswith(PT + "m_") and last(short(n["fd"])) != "m_mutex" and not f.is_noise(i):
                R.check(any((mutex_class(m) or "").endswith("ProgressTrackerState::m_mutex") for m in an.L.held(f, i) or ()), "%s locked in %s" % (last(short(n["fd"])), f.short),
                        "%s:unlocked" % f.short, an.where(f, i), "tracked positions are accessed without their lock", f)
    R.rule("save-oldest", "what is saved is the oldest held position", 1)
    n = 0
    for f in savers(an):
        for i, m in f.calls():
            if m.get("op") != "<<" or f.is_noise(i) or len(m.get("a", ())) < 1:
                continue
            for a in m["a"]:
                s = P.sym(f, a)
                if s[0] == "f" and s[2].startswith("BeesCrawlState::"):
                    n += 1
                    src = {_c(x) for x in an.roots(s[1])} | ({s[1][1]} if s[1][0] == "c" else set())
                    names = {x for x in src if x}
                    ok = any(x in ("BeesCrawl::get_state_begin", "ProgressTracker::begin") for x in names) or has(an.canon(s), lambda x: x[0] == "c" and x[1] in ("BeesCrawl::get_state_begin",)) \
                        or has_src(an, s, "ProgressTracker::begin") or writes_begin(an, f, s[1])
                    bad = has_src(an, s, "ProgressTracker::end")
                    R.check(ok and not bad, "%s saved from the oldest position" % last(s[2]), "%s:%s" % (f.short, last(s[2])), an.where(f, i),
                            "a position other than the oldest one still being worked on is saved", f)
    if not n:
        raise AnalysisBroken("no position is written by state_to_stream")
    for f in P.fn("BeesCrawl::get_state_begin"):
        for i in f.live_nodes():
            if f.nodes[i]["k"] == "ret":
                s = peel1(P.sym(f, f.nodes[i]["s"]))
                R.check(s[0] == "c" and s[1] == "ProgressTracker::begin", "get_state_begin", "%s:value" % f.short, an.where(f, i), "the saved position is not the tracker's oldest one", f)
    R.rule("held-while-scanned", "an item is handed to a scanning task only together with a holder at or before it, taken before the position moves past it", 2)
    roots = {}
    for f, i, m in an.sites({HOLD}):
        g = f
        while g.is_lambda and P.lambda_owner.get(g.id) in P.fns:
            g = P.fns[P.lambda_owner[g.id]]
        if g.cls != "BeesCrawl" and g.cls != "BeesFileCrawl":
            roots[g.id] = g
    nt = 0
    for f in roots.values():
        a, e, v = an.prove(f, lambda: Hold(an), 2, throw=False)
        nt += a.ntask
        R.states += e.nstates
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("positions held in %s" % f.short, f)
    if nt < 2:
        raise AnalysisBroken("no hand-over to a scanning task was recognised")
    R.rule("fetched-held", "the item a crawler fetched ahead is held until it is handed out", 1)
    np = 0
    pk = {x.id: x for x, i, m in an.sites({SET}) if x.cls == "BeesCrawl" and not x.is_lambda}
    pk.update({x.id: x for x, r, kind, i in an.field_writes.get("BeesCrawl::m_next_hold", ()) if kind != "init" and not x.d.get("ctor") and x.id in an.reach})
    for f in sorted(pk.values(), key=lambda x: x.short):
        a, e, v = an.prove(f, lambda: Peek(an), 3, throw=False)
        np += a.nset
        for x in v:
            R.bad("%s:%s" % (key_fn(an, x["fn"], f), x["key"]), x["where"], x["msg"], x["path"], f)
        if not v:
            R.ok("fetched item held in %s" % f.short, f)
    if not np:
        raise AnalysisBroken("no crawler advances its position")
    R.rule("refs-hold", "every reference of an extent queued for scanning carries the extent's holder until its scan is finished", 1)
    n = 0
    for f in an.fns():
        for i in f.live_nodes():
            m = f.nodes[i]
            if m["k"] == "il" and strip_t(m.get("t", "")).endswith("BeesScanModeExtent::ExtentRef"):
                n += 1
                s = P.sym(f, i)
                hs = [x for x in s[1:] if isinstance(x, tuple) and x[0] == "v" and "ProgressHolder" in vtype(an, x[1])]
                R.check(bool(hs), "reference carries the holder in %s" % f.short, "%s:no-hold" % (P.fns[P.lambda_owner[f.id]].short if f.is_lambda and P.lambda_owner.get(f.id) in P.fns else f.short), an.where(f, i),
                        "a reference is queued for scanning without the extent's position being held", f)
    for f in an.fns():
        vs = {v["var"] for m in f.nodes if m and m["k"] == "decl" for v in m["d"] if strip_t(v["t"]).endswith("BeesScanModeExtent::ExtentRef") and not (v.get("init", -1) >= 0 and (f.nd(v["init"]) or {}).get("k") in ("il", "ref", "call", "un", "idx")) and not v["t"].endswith("&")}
        if vs and any(m and m["k"] == "as" for m in f.nodes):
            a, e = run(an, f, lambda: Filled(an, vs), R, throw=False, follow_dtors=False)
            if a.n and report_all(an, R, f, a):
                R.ok("references filled in %s carry the holder" % f.short, f)
            n += a.n
    if not n:
        raise AnalysisBroken("no reference is queued for scanning")
    R.rule("retry", "a reference that could not be scanned yet is scanned later, not skipped", 4)
    done = 0
    for f in an.fns(lambda f: f.is_lambda):
        if any(short(m.get("n", "")) == Retry.SCAN for x in [f] + P.lambdas_of(f.id) for i, m in x.calls()) and in_task(an, f.id):
            a, e = run(an, f, lambda: Retry(an, f), R, follow_dtors=False)
            done += a.n
            if report_all(an, R, f, a, "ref-task"):
                R.ok("references retried in the reference task", f)
    if not done:
        raise AnalysisBroken("the reference task was not found")
    for nm in ("BeesScanModeExtent::SizeTier::scan_one_ref", "BeesContext::scan_forward"):
        for f in P.fn(nm):
            a, e = run(an, f, lambda: Busy(an, None), R, follow_dtors=False)
            if report_all(an, R, f, a):
                R.check(a.n > 0, "busy lock asks for a retry in %s" % nm, "%s:nolock" % nm, an.where(f), "the scan does not try a lock", f)
    for f in P.fn("BeesFileCrawl::scan_one_ref"):
        a, e = run(an, f, lambda: Ref(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n > 0, "references of a file retried", "%s:none" % f.short, an.where(f), "the file's references are not scanned", f)
    return ["an exception during a scan ends work on that item (it is not retried)"]


def savers(an):
    """state_to_stream and the helpers it calls"""
    out = {f.id: f for f in an.P.fn("BeesRoots::state_to_stream")}
    work = list(out.values())
    while work:
        f = work.pop()
        for x in [f] + an.P.lambdas_of(f.id):
            out[x.id] = x
            for i, m in x.calls():
                if x.is_noise(i) or m.get("op"):
                    continue
                for g in an.P.targets(m):
                    if g.blocks and g.id not in out and g.file.startswith("src/") and not g.d.get("ctor") and g.cls != "BeesCrawl":
                        out[g.id] = g
                        work.append(g)
    return list(out.values())


def _c(x):
    return x[1] if x and x[0] == "c" else None


def has_src(an, s, name):
    """the value comes (through locals) from a call of name"""
    seen = set()
    work = [s]
    while work and len(seen) < 200:
        x = work.pop()
        if not isinstance(x, tuple) or not x or x in seen:
            continue
        seen.add(x)
        if x[0] == "c" and x[1] == name:
            return True
        nx = an._step(x) if x[0] in ("v", "c") else None
        for y in nx or ():
            work.append(y)
        for y in x[1:]:
            if isinstance(y, tuple):
                work.append(y)
                work += [z for z in y if isinstance(z, tuple)]
    return False


def writes_begin(an, f, s):
    return False


def vtype(an, var):
    ow = an.var_owner.get(var)
    if not ow:
        return ""
    if ow[1] == "param":
        return ow[0].params[ow[2]].get("t", "")
    return ow[2].get("t", "")

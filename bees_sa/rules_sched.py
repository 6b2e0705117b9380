"""C21 task scheduling."""
from .common import *
from .engine import Engine
from .rules_crawl import peel1, vtype
from .rules_tiers import callname

ADD = ("push_back", "push_front", "emplace_back", "emplace_front", "insert", "emplace")
FLAGT = ("bool", "std::atomic<bool>", "volatile bool")


def task_cls(an):
    """the class whose objects are run: it has a std::function<void()> member that is called"""
    return "TaskState"


def is_queue_t(t):
    t = t or ""
    return "shared_ptr<" in t and "TaskState" in t and any(x in t for x in ("list<", "deque<", "vector<", "forward_list<"))


def obj_t(f, n):
    return f.nodes[n["o"]].get("t", "") if "o" in n else ""


class Model:
    """the boolean members of one task, and the places it can be queued in"""

    def __init__(self, an):
        self.an, self.P = an, an.P
        rec = an.P.records.get("TaskState")
        if not rec:
            raise AnalysisBroken("class TaskState not found")
        self.flags = ["TaskState::" + x["name"] for x in rec["fields"] if x["t"] in FLAGT]
        self.body = ["TaskState::" + x["name"] for x in rec["fields"] if "std::function<void ()>" in x["t"]]
        self.init = {}
        for f in an.P.fn("TaskState::TaskState", required=False):
            if f.d.get("cp") or f.d.get("mv"):
                continue
            for b in f.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "init" and e.get("fd"):
                        fd = short(e["fd"])
                        if fd in self.flags:
                            s = an.P.sym(f, e["e"])
                            self.init.setdefault(fd, set()).add({"0": False, "false": False, "1": True, "true": True}.get(s[1] if s[0] == "k" else None))


class Sched(NameAut):
    """the effect of one operation on one task: (flags before) -> (flags
    after, times queued), cut where other threads can get in between.
    State: (segment, flags at its start, flags now, queued, locals)"""
    expand = False
    names = ("std::swap", "std::exchange")

    def __init__(self, M, tracked):
        super().__init__()
        self.M, self.tracked = M, tracked
        self.fields = M.flags + M.body
        self._fl = set(self.fields)
        self.rel = []       # (segment, in, out, dq, next)

    def relevant(self, fn, i, n):
        if n["k"] == "call" and "o" in n and is_queue_t(obj_t(fn, n)):
            return True
        if n["k"] == "ctor" and is_queue_t(n.get("t", "")) and n["a"]:
            return True
        if n["k"] == "mem":
            return short(n["fd"]) in self._fl
        if n["k"] == "call" and any(x is not None and x >= 0 and fn.nodes[x] and fn.nodes[x]["k"] == "mem" and short(fn.nodes[x]["fd"]) in self.M.body for x in n.get("a", ())):
            return True
        return n["k"] == "call" and self.is_named(short(n.get("n", "")))

    def never_enter(self, fn):
        return fn.short.startswith("std::")

    def ignore_exc(self, ctx, n, name):
        if name == "*indirect" or last(name) == "operator()":
            r = ctx.sym(n["o"]) if "o" in n else ctx.sym(n["ind"]) if "ind" in n else ("none",)
            return not (r[0] == "lam" or r[0] == "f" and r[2] in self.M.body)
        if last(name) in ("catch_all", "catch_and_explain"):
            # handed the task's function itself, it is not entered
            return any(ctx.sym(a)[0] == "f" and ctx.sym(a)[2] in self.M.body for a in n.get("a", ())[:1])
        return True

    def on_throw(self, st, ctx, n):
        return []

    # ---- values
    def peel(self, s):
        while s and s[0] == "c" and len(s) == 4 and last(s[1]) in ("shared_from_this", "get", "lock") and s[2]:
            s = s[2]
        return s

    def term(self, st, s):
        """s with reference variables replaced by what they refer to"""
        d = dict(st[4])

        def go(t, depth=0):
            if not isinstance(t, tuple) or depth > 12:
                return t
            if len(t) == 2 and t[0] == "v":
                r = d.get(t[1])
                if isinstance(r, tuple):
                    return go(r, depth + 1)
                return t
            return tuple(go(x, depth + 1) for x in t)
        return go(s)

    def flag(self, st, s):
        s = self.term(st, s)
        if s[0] == "f" and s[2] in self.M.flags and self.peel(s[1]) == self.tracked:
            return s[2]
        return None

    def val(self, st, s):
        if s[0] == "k":
            return {"0": False, "1": True, "false": False, "true": True}.get(s[1])
        f = self.flag(st, s)
        if f:
            return dict(st[2])[f]
        if s[0] == "v":
            r = dict(st[4]).get(s[1])
            if isinstance(r, tuple):
                return self.val(st, r) if r != s else None
            return r
        if s[0] == "not":
            v = self.val(st, s[1])
            return None if v is None else not v
        if s[0] == "o" and len(s) == 4 and s[1] in ("&&", "||", "==", "!=", "&", "|", "^"):
            a, b = self.val(st, s[2]), self.val(st, s[3])
            if s[1] in ("&&", "&"):
                return False if a is False or b is False else True if a and b else None
            if s[1] in ("||", "|"):
                return True if a or b else False if a is False and b is False else None
            if a is None or b is None:
                return None
            return (a == b) == (s[1] == "==")
        if s[0] == "o" and s[1] == "?:" and len(s) == 5:
            c = self.val(st, s[2])
            if c is None:
                a, b = self.val(st, s[3]), self.val(st, s[4])
                return a if a == b else None
            return self.val(st, s[3] if c else s[4])
        if s[0] == "c" and last(s[1]) == "exchange":
            return dict(st[4]).get("xchg")
        return None

    def put(self, st, f, v):
        d = dict(st[2])
        d[f] = v
        return (st[0], st[1], tuple(sorted(d.items())), st[3], st[4])

    def loc(self, st, var, v):
        d = dict(st[4])
        d.pop(var, None)
        if v is not None:
            d[var] = v
        return (st[0], st[1], st[2], st[3], frozenset(d.items()))

    def all_vals(self):
        r = [()]
        for f in sorted(self.M.flags):
            r = [x + ((f, v),) for x in r for v in (False, True)]
        return r

    def end(self, st, nxt):
        self.rel.append((st[0], st[1], st[2], st[3], nxt))

    def cut(self, st, kind, ctx):
        nxt = (kind, ctx.fn.id, ctx.node, st[4])
        self.end(st, nxt)
        return [(nxt, v, v, 0, st[4]) for v in self.all_vals()]

    # ---- events
    def on_call(self, st, ctx, n, name, recv, args):
        if n["k"] == "ctor":
            if is_queue_t(n.get("t", "")) and not (n.get("cp") or n.get("mv")) and any(self.peel(self.term(st, x)) == self.tracked for a in args for x in ([a] + (list(a[1:]) if a[0] == "il" else []))):
                self.instances.add((ctx.fn.id, ctx.node))
                return [(st[0], st[1], st[2], min(3, st[3] + 1), st[4])]
            return None
        if n["k"] != "call":
            return None
        if "o" in n and is_queue_t(obj_t(ctx.fn, n)) and last(name) in ADD:
            if any(self.peel(self.term(st, a)) == self.tracked for a in args):
                self.instances.add((ctx.fn.id, ctx.node))
                return [(st[0], st[1], st[2], min(3, st[3] + 1), st[4])]
            return None
        if recv is not None and (name == "*indirect" or last(name) == "operator()"):
            r = self.term(st, recv)
            if r[0] == "f" and r[2] in self.M.body and self.peel(r[1]) == self.tracked:
                self.instances.add((ctx.fn.id, ctx.node))
                return self.cut(st, "body", ctx)
        if n["k"] == "call" and args:
            # handed to a function that calls it
            for k, a in enumerate(args):
                r = self.term(st, a)
                if r[0] == "f" and r[2] in self.M.body and self.peel(r[1]) == self.tracked and any((t.id, k) in self.M.an.L.sync_param for t in self.M.P.targets(n)):
                    self.instances.add((ctx.fn.id, ctx.node))
                    return self.cut(st, "body", ctx)
        if last(name) in ("lock", "try_lock") and recv is not None and self.mine(st, ctx, recv):
            return self.cut(st, "lock", ctx)
        if name == "std::exchange" and len(args) == 2:
            f = self.flag(st, args[0])
            if f:
                old = dict(st[2])[f]
                st = self.loc(st, "xchg", old)
                v = self.val(st, args[1])
                return [self.put(st, f, x) for x in ((v,) if v is not None else (False, True))]
        if name == "std::swap" and len(args) == 2:
            fs = [self.flag(st, a) for a in args]
            if any(fs):
                vs = [self.val(st, a) for a in args]
                out = st
                for a, f, v in ((args[0], fs[0], vs[1]), (args[1], fs[1], vs[0])):
                    if f:
                        out = self.put(out, f, v)
                    elif a[0] == "v":
                        out = self.loc(out, a[1], v)
                return [out] if None not in vs else None
        return None

    def mine(self, st, ctx, recv):
        """a lock object that holds the mutex of the tracked task"""
        if recv[0] != "v":
            return False
        f = ctx.fn
        o = self.M.an.var_owner.get(recv[1])
        if not o or o[1] not in ("local", "decl"):
            return False
        for d in o[0].defs.get(recv[1], ()):
            if d[0] == "decl":
                s = self.M.P.sym(o[0], d[1], ctx.env if o[0] is f else None, 0, False) if isinstance(d[1], int) and d[1] >= 0 else ("none",)
                for t in subterms(s):
                    if t and t[0] == "f" and len(t) == 3 and "TaskState::" in t[2] and "mutex" in t[2].lower() and self.peel(self.term(st, t[1])) == self.tracked:
                        return True
        return False

    def on_bind(self, st, ctx, var, typ, s):
        if s[0] == "c" and last(s[1]) == "exchange":
            return [self.loc(st, var, self.val(st, s))]
        if typ and typ.rstrip().endswith("&") or "shared_ptr" in (typ or "") or (typ or "").rstrip().endswith("*"):
            t = self.term(st, s)
            if self.flag(st, t) or self.peel(t) == self.tracked or t[0] == "f":
                return [self.loc(st, var, self.peel(t))]
            return [self.loc(st, var, None)]
        v = self.val(st, s)
        if (typ or "").replace("const ", "").strip() in ("bool", "auto"):
            return [self.loc(st, var, v)]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        f = self.flag(st, lhs)
        if op in ("++", "--", "p++", "p--"):
            return None
        v = self.val(st, rhs)
        if op in ("|=", "&=", "^="):
            v = self.val(st, ("o", op[0], lhs, rhs))
        elif op != "=":
            v = None
        if f:
            self.instances.add((ctx.fn.id, ctx.node))
            return [self.put(st, f, x) for x in ((v,) if v is not None else (False, True))]
        if lhs[0] == "v":
            return [self.loc(st, lhs[1], v)]
        return None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            t = self.term(st, s)
            if p and t[0] == "f" and "cancel" in t[2].lower():
                return []       # the whole queue is being thrown away on purpose
            v = self.val(st, s)
            if v is not None and v != p:
                return []
        return None


def relation(M, root, tracked):
    """transitions of the operation root on the task named tracked"""
    A = Sched(M, tracked)
    E = Engine(M.P, A, throw=True)
    for v in A.all_vals():
        outs = E.run(root, ("start", v, v, 0, frozenset()))
        for o in outs:
            A.end(o[1], None)
    return A


def explore(M, ops):
    """every state reachable by any number of threads.  ops: list of (name,
    kind, relation).  Yields (state, how) and the graph of progress steps"""
    init = {f: v for f, vs in M.init.items() for v in vs if len(vs) == 1 and v is not None}
    z = tuple((f, bool(init.get(f, False))) for f in sorted(M.flags))
    start = (z, 0, False, ())
    idx = []
    for name, kind, rel in ops:
        d = {}
        for seg, a, b, dq, nxt in rel:
            d.setdefault((seg, a), set()).add((b, dq, nxt))
        idx.append((name, kind, d))
    seen = {start: None}
    work = [start]
    prog = {}
    bad = []
    while work:
        st = work.pop()
        fl, q, pend, fly = st
        succ = []

        def step(opi, seg, base_fly, q0, pend0, what, progress):
            name, kind, d = idx[opi]
            for b, dq, nxt in d.get((seg, fl), ()):
                p1, f1 = pend0, base_fly
                if nxt is not None:
                    f1 = tuple(sorted(base_fly + ((opi, nxt),), key=repr))
                    if nxt[0] == "body":
                        p1 = False
                succ.append(((b, min(3, q0 + dq), p1, f1), what, progress))
        for opi, (name, kind, d) in enumerate(idx):
            if len(fly) >= 3:
                continue
            if kind == "req":
                step(opi, "start", fly, q, True, name, False)
            elif kind == "exec" and q > 0:
                step(opi, "start", fly, q - 1, pend, name, True)
        for k, (opi, seg) in enumerate(fly):
            step(opi, seg, fly[:k] + fly[k + 1:], q, pend, "%s continues" % idx[opi][0], True)
        prog[st] = [s for s, w, p in succ if p]
        for s, w, p in succ:
            if s not in seen:
                seen[s] = (st, w)
                if sum(1 for o, n in s[3] if n[0] == "body") > 1:
                    bad.append(("twice", s))
                    continue
                if s[1] > 1:
                    bad.append(("requeued", s))
                if s[1] > 2:
                    continue
                work.append(s)
        if len(seen) > 200000:
            raise RuntimeError("state explosion in the scheduling model")
    # a pending request must lead to an execution whatever the workers do next
    good = {s for s in seen if not s[2]}
    changed = True
    states = [s for s in prog if s[2]]
    while changed:
        changed = False
        for s in states:
            if s not in good and prog[s] and all(t in good or t not in prog for t in prog[s]):
                good.add(s)
                changed = True
    for s in states:
        if s not in good:
            bad.append(("lost", s))
    return seen, bad


def trace(seen, s):
    out = []
    while seen.get(s):
        p, w = seen[s]
        out.append(w)
        s = p
    return list(reversed(out))


# ------------------------------------------------------------- queues
MOVE_IN = ("push_back", "push_front", "emplace_back", "emplace_front", "insert", "emplace")
ST_Q = ("start_threads", "pop_front", "pop_back", "erase", "clear", "resize", "assign", "swap", "splice", "merge", "reset", "operator=") + MOVE_IN


class Conserve(NameAut):
    """tasks in a queue that is about to disappear are handed on.
    State: frozenset of ("held", queue), ("cancel",), ("nn", holder, bool)"""
    names = tuple("*::" + x for x in ST_Q) + ("std::swap", "std::exchange")
    expand = False

    def __init__(self, an, M, root="", home=None):
        super().__init__()
        self.an, self.M, self.root = an, M, root
        self.home = ("f", ("this",), home) if home else None
        self.n = 0

    def initial(self):
        return frozenset({("held", self.home)} if self.root in ("dtor", "consumer") else ())

    def isq(self, f, i):
        n = f.nd(i)
        return n is not None and is_queue_t(n.get("t", "")) or n is not None and n["k"] == "ref" and is_queue_t(self.vtype(n["var"]))

    def vtype(self, var):
        o = self.an.var_owner.get(var)
        if not o:
            return ""
        d = o[2]
        if o[1] == "param":
            return o[0].params[d].get("t", "") if isinstance(d, int) else ""
        return d.get("t", "") if isinstance(d, dict) else ""

    def relevant(self, fn, i, n):
        if n["k"] == "call":
            if "o" in n and is_queue_t(obj_t(fn, n)):
                return True
            if short(n.get("n", "")) in ("std::swap", "std::exchange") and any(self.isq(fn, a) for a in n["a"]):
                return True
        if n["k"] == "ctor" and is_queue_t(n.get("t", "")) and n["a"]:
            return True
        return n["k"] == "mem" and "cancel" in n["fd"].lower() or n["k"] == "mem" and short(n["fd"]) in self.M.body

    def ignore_exc(self, ctx, n, name):
        return True

    def on_throw(self, st, ctx, n):
        return []

    def local(self, s):
        """a queue that lives in a function"""
        if s[0] != "v":
            return False
        t = self.vtype(s[1])
        return is_queue_t(t) and t.rstrip()[-1:] not in ("&", "*")

    def hold(self, st, s):
        return st | {("held", s)} if ("cancel",) not in st else st

    def free(self, st, s):
        return st - {("held", s)}

    def ref(self, st, s):
        """what a reference variable refers to"""
        for _ in range(4):
            for t in st:
                if t[0] == "ref" and t[1] == s:
                    s = t[2]
                    break
            else:
                break
        return s

    def on_bind(self, st, ctx, var, typ, s):
        v = ("v", var)
        st = frozenset(t for t in st if not (t[0] in ("nn", "ref") and t[1] == v))
        if (typ or "").rstrip().endswith("&"):
            return [st | {("ref", v, s)}]
        if is_queue_t(typ) and not typ.rstrip().endswith("*"):
            st = self.free(st, v)
            node = ctx.fn.nodes[ctx.node]
            init = next((d["init"] for d in node.get("d", ()) if d["var"] == var), -1)
            n = ctx.fn.nd(init) if init is not None and init >= 0 else None
            moved = n is not None and n["k"] == "ctor" and n.get("mv") or s[0] == "c"
            if n is not None and n["k"] == "ctor" and n.get("cp"):
                return [st]         # a copy: the tasks are still where they were
            if moved:
                return [self.hold(self.free(st, self.ref(st, s)), v)]
            if s[0] != "none" and not (s[0] == "ctor" and not s[2]) and not (s[0] == "il" and len(s) == 1):
                return [self.hold(st, v)]
            return [st]
        nn = self.truth(st, s)
        if nn is not None:
            return [st | {("nn", v, nn)}]
        return [st]

    def truth(self, st, s):
        s = self.ref(st, s)
        if s == ("k", "0") or s[0] == "ctor" and not s[2]:
            return False
        if s == ("this",) or s[0] == "c" and last(s[1]) in ("make_shared", "shared_from_this"):
            return True
        for t in st:
            if t[0] == "nn" and t[1] == s:
                return t[2]
        return None

    def set_truth(self, st, s, v):
        st = frozenset(t for t in st if not (t[0] == "nn" and t[1] == s))
        return st if v is None else st | {("nn", s, v)}

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and "cancel" in lhs[2].lower() and konst(rhs) not in (0, None):
            return [frozenset(t for t in st if t[0] != "held") | {("cancel",)}]
        l = self.ref(st, lhs)
        if self.local(l) or l[0] == "f" and ("held", l) in st:
            return None
        if l[0] in ("v", "g"):
            return [self.set_truth(st, l, self.truth(st, rhs))]
        return None

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            if s[0] == "f" and "cancel" in s[2].lower():
                if p:
                    out = frozenset(t for t in out if t[0] != "held") | {("cancel",)}
                continue
            if s[0] == "c" and last(s[1]) == "empty" and s[2] is not None and p:
                out = self.free(out, self.ref(out, s[2]))
                continue
            x = self.ref(out, s)
            if x[0] in ("v", "g"):
                t = self.truth(out, x)
                if t is not None and t != p:
                    return []
        return [out] if out != st else None

    def swap(self, st, a, b):
        ha, hb = ("held", a) in st, ("held", b) in st
        la, lb = self.local(a), self.local(b)
        # a queue elsewhere may hold tasks
        va = ha if la else True
        vb = hb if lb else True
        st = self.free(self.free(st, a), b)
        if la and vb:
            st = self.hold(st, a)
        if lb and va:
            st = self.hold(st, b)
        if self.home in (a, b) and (ha if self.home == b else hb):
            st = self.hold(st, self.home)
        return st

    def on_call(self, st, ctx, n, name, recv, args):
        f = ctx.fn
        if n["k"] != "call":
            return None
        l = last(name)
        if name == "std::swap" and len(args) == 2:
            a, b = self.ref(st, args[0]), self.ref(st, args[1])
            if self.isq(f, n["a"][0]):
                self.n += 1
                self.instances.add((f.id, ctx.node))
                return [self.swap(st, a, b)]
            if a[0] in ("v", "g") and b[0] in ("v", "g"):
                ta, tb = self.truth(st, a), self.truth(st, b)
                if ta is None and tb is None:
                    return None
                # what a thread has not been given yet is empty
                if a[0] == "g" and ta is None and not self.seen(st, a):
                    ta = False
                if b[0] == "g" and tb is None and not self.seen(st, b):
                    tb = False
                return [self.set_truth(self.set_truth(st, a, tb), b, ta)]
            return None
        if l == "reset" and recv is not None and recv[0] in ("v", "g") and not args:
            return [self.set_truth(st, self.ref(st, recv), False)]
        if recv is not None and (name == "*indirect" or l == "operator()"):
            r = self.ref(st, recv)
            if r[0] == "f" and r[2] in self.M.body:
                st = st | {("ran",)}
                return [self.hold(st, self.home) if self.home else st]
        if "o" not in n or not is_queue_t(obj_t(f, n)):
            return None
        q = self.ref(st, recv)
        self.n += 1
        self.instances.add((f.id, ctx.node))
        if l == "swap" and args:
            return [self.swap(st, q, self.ref(st, args[0]))]
        if l in ("splice", "merge"):
            src = self.ref(st, args[1] if l == "splice" and len(args) > 1 else args[0])
            was = ("held", src) in st or not self.local(src)
            if src == self.home and q[0] == "f" and q[2] == src[2] and self.root == "consumer":
                return None         # from one worker's queue into the same worker's queue
            st = self.free(st, src)
            if self.local(q) and was:
                st = self.hold(st, q)
            return [st]
        if l in MOVE_IN:
            if self.local(q) or q == self.home:
                return [self.hold(st, q)]
            return None
        if l in ("clear", "assign", "operator=", "resize"):
            if l == "operator=" and args:
                src = self.ref(st, args[0])
                if ("held", src) in st:
                    st = self.free(st, src)
                    if self.local(q):
                        st = self.hold(st, q)
                return [st]
            if ("cancel",) not in st and (not self.local(q) or ("held", q) in st):
                self.report(ctx, "thrown-away", "queued tasks are thrown away although the queue was not cancelled")
            return [self.free(st, q)]
        return None

    def seen(self, st, s):
        return any(t[0] == "nn" and t[1] == s for t in st)

    def on_leave(self, st, ctx, kind):
        if kind != "ret":
            return [frozenset(t for t in st if not (t[0] == "held" and t[1][0] == "v" and self.owner_fn(t[1][1]) is ctx.fn))]
        out = st
        for t in st:
            if t[0] == "held" and t[1][0] == "v" and self.owner_fn(t[1][1]) is ctx.fn:
                self.report(ctx, "dropped:" + t[1][1].split("@")[0], "tasks moved into %s are dropped when it goes out of scope" % t[1][1].split("@")[0])
                out = out - {t}
        if not ctx.stack:
            for t in out:
                if t[0] == "held" and t[1][0] == "f" and (self.root != "exec" or ("ran",) in st):
                    self.report(ctx, "kept:" + last(t[1][2]), "tasks in %s are not handed on" % last(t[1][2]))
        return [out] if out != st else None

    def owner_fn(self, var):
        o = self.an.var_owner.get(var)
        return o[0] if o else None


def body_fns(an, M):
    """functions that call the function of a task"""
    out = {}
    for f in an.P.fns.values():
        for i, n in f.calls():
            if short(n.get("n", "")) == "std::function::operator()" and "o" in n:
                s = an.P.sym(f, n["o"])
                if s[0] == "f" and s[2] in M.body:
                    o = an.owner_of(f)
                    out[o.id] = o
        for i in f.live_nodes():
            # ... or hand it to something that calls it
            n = f.nodes[i]
            if n["k"] == "mem" and short(n["fd"]) in M.body and f.parents.get(i):
                pn = f.nodes[f.parents[i][0]] if f.parents[i][0] >= 0 else {}
                if pn.get("k") == "call" and i in pn.get("a", ()):
                    o = an.owner_of(f)
                    out[o.id] = o
    return list(out.values())


# ------------------------------------------------------------- workers
def queue_field(s):
    """the task queue member s is, or None"""
    return s[2] if s and s[0] == "f" else None


class Take(NameAut):
    """a worker runs each task it takes from a queue, the one it removes, once.
    tokens ("front", queue), ("have",), ("empty", queue)"""
    names = tuple("*::" + x for x in ("begin", "front", "pop_front", "erase", "pop_back", "back", "unlock", "wait", "wait_for", "wait_until"))
    MAIN, LOCAL, IDLE = "TaskMasterState::m_queue", "TaskConsumer::m_local_queue", "TaskMasterState::m_idle_queue"

    def __init__(self, an, M, execs):
        super().__init__()
        self.an, self.M, self.execs = an, M, execs
        self.n = self.runs = 0

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        if n["k"] == "call" and "o" in n and is_queue_t(obj_t(fn, n)):
            return True
        if n["k"] == "call" and any(short(n.get("n", "")) == f.short for f in self.execs):
            return True
        return n["k"] == "call" and last(short(n.get("n", ""))) in ("unlock", "wait", "wait_for", "wait_until")

    def never_enter(self, fn):
        return fn.short.startswith("std::") or any(fn is x for x in self.execs)

    def ignore_exc(self, ctx, n, name):
        return True

    def kill(self, st):
        return frozenset(t for t in st if t[0] != "empty")

    def point(self, st, var, s):
        q = self.fields_of(s, st)
        st = frozenset(t for t in st if not (t[0] == "ptr" and t[1] == var))
        return st | {("ptr", var, tuple(sorted(q)))} if q else st

    def on_bind(self, st, ctx, var, typ, s):
        if is_queue_t(typ) and (typ or "").rstrip()[-1:] in ("&", "*"):
            return [self.point(st, var, s)]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "v" and vtype(self.an, lhs[1]).rstrip().endswith("*") and is_queue_t(vtype(self.an, lhs[1])):
            return [self.point(st, lhs[1], rhs)]
        return None

    def fields_of(self, s, st=()):
        """queues s may be"""
        if s[0] == "v":
            return {q for t in st if t[0] == "ptr" and t[1] == s[1] for q in t[2]}
        if s[0] == "addr" and len(s) == 2:
            return self.fields_of(s[1], st)
        if s[0] == "o" and s[1] == "?:" and len(s) == 5:
            return self.fields_of(s[3], st) | self.fields_of(s[4], st)
        return {s[2]} if s[0] == "f" else set()

    def on_call(self, st, ctx, n, name, recv, args):
        if n["k"] != "call":
            return None
        l = last(name)
        if any(name == f.short for f in self.execs):
            self.runs += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not any(t[0] in ("front", "have") for t in st):
                self.report(ctx, "again", "a task that was not just taken from a queue is run")
            return [frozenset(("ran",) + t[1:] if t[0] == "front" else t for t in st if t[0] != "have")]
        if "o" in n and is_queue_t(obj_t(ctx.fn, n)):
            q = self.fields_of(recv, st)
            if not q:
                return None
            q = tuple(sorted(q))
            if l in ("begin", "front", "cbegin", "back"):
                if ("have",) in st:
                    self.report(ctx, "forgotten", "the next task is taken although the one taken before was not run")
                if any(t[0] == "ran" for t in st):
                    self.report(ctx, "left", "a task that was run stays in its queue")
                return [frozenset(t for t in st if t[0] not in ("front", "have", "ran")) | {("front", q, l != "back")}]
            if l in ("pop_front", "pop_back", "erase"):
                self.n += 1
                self.instances.add((ctx.fn.id, ctx.node))
                t0 = [t for t in st if t[0] in ("front", "ran") and t[1] == q and t[2] == (l != "pop_back")]
                if not t0:
                    self.report(ctx, "unseen:" + last(q[0]), "a task is removed from %s although it is not the one taken to be run" % last(q[0]))
                    return None
                if self.IDLE in q and (len(q) == 1 or len(q) < 3 and set(q) != {self.IDLE}):
                    for x in (self.MAIN, self.LOCAL):
                        if x not in q and ("empty", x) not in st:
                            self.report(ctx, "idle-first:" + last(x), "an idle task is taken although %s may have tasks" % last(x))
                return [frozenset(t for t in st if t not in t0) | ({("have",)} if t0[0][0] == "front" else set())]
            if l in ADD + ("splice", "swap"):
                return [frozenset(t for t in st if not (t[0] == "empty" and t[1] in q))]
            return None
        if l == "unlock" or l in ("wait", "wait_for", "wait_until"):
            if l != "unlock" and any(t[0] in ("have", "front") for t in st):
                self.report(ctx, "wait", "a worker waits although it has taken a task and not run it")
            return [self.kill(st)]
        return None

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            if s[0] == "c" and last(s[1]) == "empty" and s[2] is not None and p:
                q = self.fields_of(s[2], st)
                if len(q) == 1:
                    out = out | {("empty", x) for x in q}
        return [out] if out != st else None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack and any(t[0] == "have" for t in st):
            self.report(ctx, "leave", "a worker stops although it has taken a task and not run it")
        if kind == "ret" and not ctx.stack and any(t[0] == "ran" for t in st):
            self.report(ctx, "left", "a task that was run stays in its queue")
        return None


class Workers(NameAut):
    """whatever lets more work be done is followed by starting workers until
    there are as many as are allowed.  tokens ("owe", what)"""
    names = tuple("*::" + x for x in ADD + ("splice", "erase", "swap"))
    QS = ("TaskMasterState::m_queue", "TaskMasterState::m_idle_queue")
    THREADS, MAX, PAUSED = "TaskMasterState::m_threads", "TaskMasterState::m_thread_max", "TaskMasterState::m_paused"

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.fields = [self.PAUSED, self.MAX]
        self.n = 0
        self.started = 0

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        if n["k"] == "mem" and short(n["fd"]) in self.QS + (self.THREADS, self.MAX, self.PAUSED):
            return True
        return n["k"] == "call" and "make_shared" in n.get("n", "") and "TaskConsumer" in n.get("t", "")

    def never_enter(self, fn):
        return fn.short.startswith("std::")

    def ignore_exc(self, ctx, n, name):
        return True

    def owe(self, st, ctx, what):
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        return [st | {("owe", what, ctx.fn.id, ctx.node)}]

    def on_call(self, st, ctx, n, name, recv, args):
        if n["k"] != "call" or recv is None or recv[0] != "f":
            return None
        l = last(name)
        if recv[2] in self.QS and l in ADD + ("splice",):
            return self.owe(st, ctx, "add:" + last(recv[2]))
        if recv[2] == self.THREADS and l in ("erase", "clear", "extract"):
            return self.owe(st, ctx, "gone")
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and lhs[2] == self.PAUSED and konst(rhs) != 1:
            return self.owe(st, ctx, "resume")
        if lhs[0] == "f" and lhs[2] == self.MAX:
            st = st | {("max", rhs)}
            return self.owe(st, ctx, "more")
        return None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "o" and s[1] == "==" and p and any(("max", x) in st for x in s[2:]) and all(t[1] == "more" for t in st if t[0] == "owe"):
                return [frozenset()]        # the number of workers stays the same
            if s[0] == "f" and s[2] == self.PAUSED and p:
                return [frozenset()]
            if s[0] == "o" and s[1] in ("<", "==") and len(s) == 4:
                a, b = s[2], s[3]
                sz = [x for x in (a, b) if callname(x) == "size" and x[2] is not None and x[2][0] == "f" and x[2][2] == self.THREADS]
                mx = [x for x in (a, b) if x[0] == "f" and x[2] == self.MAX]
                if sz and mx:
                    # as many workers as allowed, or more
                    if s[1] == "<" and (a in sz and not p or a in mx and p) or s[1] == "==" and p:
                        self.started += 1
                        return [frozenset()]
        return None

    def on_leave(self, st, ctx, kind):
        if kind == "ret" and not ctx.stack:
            for t in st:
                if t[0] == "owe":
                    self.report(ctx, "idle:" + t[1], {"more": "the number of workers is raised but none is started", "gone": "a worker leaves and no other one is started although there may be work and fewer workers than allowed",
                                                   "resume": "work is allowed again but no worker is started"}.get(t[1], "a task is queued but no worker is started"))
        return None


class TryLock(NameAut):
    """tokens "free", "busy", "notask", "told", ("set", sym), ("made", sym)"""
    names = ("std::weak_ptr::lock", "std::weak_ptr::operator=", "std::weak_ptr::swap", "std::unique_lock::unlock", "std::mutex::unlock", "Task::insert", "Task::append", "ExclusionLock::ExclusionLock")
    OWN = "Exclusion::m_owner"
    fields = ["Exclusion::m_owner"]

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        return super().relevant(fn, i, n) or n["k"] == "ctor" and strip_t(n.get("t", "")).endswith("ExclusionLock") or n["k"] == "call" and last(short(n.get("n", ""))) in ("unlock", "expired", "use_count")

    def never_enter(self, fn):
        return fn.short.startswith("std::") or fn.short.startswith("Task") or fn.short.startswith("ExclusionLock::")

    def ignore_exc(self, ctx, n, name):
        return True

    def owned(self, s):
        """s is the present owner"""
        s = peel1(s)
        return callname(s) == "lock" and s[2] is not None and s[2][0] == "f" and s[2][2] == self.OWN

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            if s[0] == "o" and s[1] in ("==",) and ("k", "0") in s[2:]:
                s, p = [x for x in s[2:] if x != ("k", "0")][0], not p
            s = self.whom(st, s)
            if self.owned(s):
                out = out - {"free", "busy"} | {"busy" if p else "free"}
            elif callname(s) == "expired" and s[2] is not None and s[2][0] == "f" and s[2][2] == self.OWN:
                out = out - {"free", "busy"} | {"free" if p else "busy"}
            elif s[0] == "v" and s[1] in self.task and not p:
                out = out | {"notask"}
            elif callname(s) == "operator bool" and s[2] is not None and s[2][0] == "v" and s[2][1] in self.task and not p:
                out = out | {"notask"}
        return [out] if out != st else None

    task = ()
    expand = False

    def whom(self, st, s):
        s = peel1(s)
        for _ in range(3):
            if s[0] == "ctor" and len(s[2]) == 1:
                s = peel1(s[2][0])
            for t in st:
                if isinstance(t, tuple) and t[0] == "is" and t[1] == s:
                    s = t[2]
        return s

    def on_bind(self, st, ctx, var, typ, s):
        v = ("v", var)
        st = frozenset(t for t in st if not (isinstance(t, tuple) and t[0] == "is" and t[1] == v))
        s = self.whom(st, s)
        if s[0] == "v" or self.owned(s):
            return [st | {("is", v, s)}]
        return [st]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and lhs[2] == self.OWN:
            r = self.whom(st, rhs)
            return [frozenset(t for t in st if not (isinstance(t, tuple) and t[0] == "set")) | {("set", r if r[0] == "v" else ("new", ctx.fn.id, ctx.node))}]
        if lhs[0] == "v":
            return self.on_bind(st, ctx, lhs[1], None, rhs)
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if n["k"] == "ctor" and name.startswith("ExclusionLock::"):
            if n.get("cp") or n.get("mv"):
                return None
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            a = [x for x in args if x != ("k", "0")]
            if not a:
                return [st | {"none"}]
            if "free" not in st:
                self.report(ctx, "shared", "a lock is given out although another task may hold it")
            return [st | {("made", self.whom(st, a[0]))}]
        if l == "unlock":
            return [st - {"free"}]
        if name in ("Task::insert", "Task::append", "Task::run", "Task::idle"):
            if name == "Task::insert" or name == "Task::append":
                if recv is not None and self.owned(self.whom(st, recv)):
                    return [st | {"told"}]
        if l == "swap" and recv is not None and recv[0] == "f" and recv[2] == self.OWN and args:
            return [st | {("set", self.whom(st, args[0]))}]
        return None

    def on_leave(self, st, ctx, kind):
        if kind != "ret" or ctx.stack:
            return None
        made = [t[1] for t in st if isinstance(t, tuple) and t[0] == "made"]
        sets = [t[1] for t in st if isinstance(t, tuple) and t[0] == "set"]
        for m in made:
            if m not in sets:
                self.report(ctx, "unrecorded", "a lock is given out but its owner is not recorded")
        if "none" in st and not made and not ("busy" in st and ("told" in st or "notask" in st)):
            self.report(ctx, "waiter", "a task does not get the lock and is not queued behind its owner")
        return None


def c21(an, R):
    M = Model(an)
    ex = body_fns(an, M)
    R.rule("model", "the states of a task under every interleaving of any number of threads that request or run it: never run by two threads at once, never queued while queued, every request followed by a run that begins after it", 3)
    ops = []
    for nm in ("run", "idle"):
        for f in an.P.fn("Task::" + nm):
            ops.append((nm, "req", f, ("f", ("this",), "Task::m_task_state")))
    for nm in ("append", "insert"):
        for f in an.P.fn("Task::" + nm):
            ops.append((nm, "req", f, ("f", ("v", f.params[0]["var"]), "Task::m_task_state")))
    if not R.check(ex, "functions run tasks", "exec:none", "lib/task.cc", "no function that runs a task was found"):
        return
    for f in ex:
        ops.append((last(f.short), "exec", f, ("this",)))
    if not M.flags:
        R.bad("flags:none", "lib/task.cc", "a task has no state that says whether it is queued or running")
        return
    rels = []
    for nm, kind, f, tr in ops:
        A = relation(M, f, tr)
        R.ok("%s: %d steps of a task's state" % (f.short, len(A.rel)), f)
        R.states += len(A.rel)
        rels.append((nm, kind, A.rel))
    seen, bad = explore(M, rels)
    R.states += len(seen)
    R.ok("%d states of a task explored" % len(seen), ex[0])
    msgs = {"twice": "two threads run the same task at once", "requeued": "a task is queued again while it is queued", "lost": "a request to run a task does not lead to an execution after it"}
    done = set()
    for k, s in bad:
        if k not in done:
            done.add(k)
            R.bad(k, an.where(ex[0]), msgs[k] + " (after: " + ", ".join(trace(seen, s)[:14]) + ")", fn=ex[0])

    R.rule("kept", "tasks moved out of a queue are run or moved to another queue before the place they were moved to disappears, unless the queues were cancelled", 8)
    fns = [f for f in an.P.fns.values() if f.file.endswith("task.cc") and any(n["k"] == "call" and "o" in n and is_queue_t(obj_t(f, n)) or short(n.get("n", "")) in ("std::swap", "std::exchange") for i, n in f.calls())]
    work = {}
    for f in ex:
        work[f.id] = (f, "exec", "TaskState::m_post_exec_queue")
    for f in an.P.fns.values():
        if f.d.get("dtor") and f.short == "TaskState::~TaskState":
            work[f.id] = (f, "dtor", "TaskState::m_post_exec_queue")
    take_fns = set()
    for f in fns:
        for i, n in f.calls():
            if "o" in n and is_queue_t(obj_t(f, n)) and last(short(n.get("n", ""))) in ("pop_front", "pop_back", "erase"):
                q = an.P.sym(f, n["o"])
                if any(t and t[0] == "f" and len(t) == 3 and t[2] in (Take.MAIN, Take.LOCAL, Take.IDLE) for t in subterms(q)) or q[0] == "v" and vtype(an, q[1]).rstrip()[-1:] in ("&", "*"):
                    take_fns.add(an.owner_of(f))
    cons = set()
    for f in take_fns:
        # the whole of what one worker does, up to where its thread starts
        work1, seen1 = [f], {f.id}
        while work1:
            g = work1.pop()
            up = [an.owner_of(c) for c, i in an.P.callers.get(g.id, ()) if not an.owner_of(c).d.get("ctor")]
            if not up:
                cons.add(g)
            for c in up:
                if c.id not in seen1:
                    seen1.add(c.id)
                    work1.append(c)
    for f in cons:
        work[f.id] = (f, "consumer", "TaskConsumer::m_local_queue")
    for f in an.roots_for([an.owner_of(f) for f in fns]):
        work.setdefault(an.owner_of(f).id, (an.owner_of(f), "", None))
    for f, root, home in sorted(work.values(), key=lambda t: t[0].id):
        if f.short in ("TaskState::clear", "TaskState::clear_queue"):
            continue
        A = Conserve(an, M, root, home)
        e = Engine(an.P, A)
        e.run(f, A.initial())
        R.states += e.nstates
        if A.n:
            R.ok("%s: %d operations on task queues" % (f.short, A.n), f)
        for v in A.violations.values():
            R.bad(v["key"], v["where"], v["msg"], v.get("path"), f)

    R.rule("taken", "a worker runs each task it removes from a queue, the first one, before it takes another or waits; idle tasks only when nothing else is queued", 3)
    if R.check(cons, "workers take tasks from the queues", "take:none", "lib/task.cc", "no function takes tasks from the queues"):
        for f in sorted(cons, key=lambda f: f.id):
            A = Take(an, M, ex)
            e = Engine(an.P, A)
            e.run(f, A.initial())
            R.states += e.nstates
            for fi, i in sorted(A.instances):
                R.ok("%s in %s" % (an.where(an.P.fns[fi], i), f.short), f)
            R.check(A.runs, "%s runs tasks" % f.short, "take:no-run", an.where(f), "%s takes tasks and runs none" % f.short, f)
            for v in A.violations.values():
                R.bad(v["key"], v["where"], v["msg"], v.get("path"), f)

    R.rule("workers", "queueing a task, ending a pause and the end of a worker are followed by starting workers until there are as many as are allowed", 4)
    hit = []
    for f in an.P.fns.values():
        if f.d.get("ctor") or f.d.get("dtor"):
            continue
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] == "call" and "o" in n and last(short(n.get("n", ""))) in ADD + ("splice", "erase", "clear", "extract"):
                s = an.P.sym(f, n["o"])
                if s[0] == "f" and (s[2] in Workers.QS or s[2] == Workers.THREADS and last(short(n["n"])) in ("erase", "clear", "extract")):
                    hit.append(an.owner_of(f))
            elif n["k"] == "as":
                s = an.P.sym(f, n["L"])
                if s[0] == "f" and s[2] in (Workers.PAUSED, Workers.MAX):
                    hit.append(an.owner_of(f))
    for f in sorted({f.id: f for f in hit}.values(), key=lambda f: f.id):
        a, e, v = an.prove(f, lambda: Workers(an), levels=2, throw=False)
        R.states += e.nstates
        for fi, i in sorted(a.instances):
            R.ok("%s in %s" % (an.where(an.P.fns[fi], i), f.short), f)
        for x in v:
            R.bad(x["key"], x["where"], x["msg"], x.get("path"), f)

    R.rule("exclusive", "an exclusion lock is given out only when, under its mutex, no owner exists, and the new owner is recorded before the mutex is released; a task that does not get it is queued behind the owner", 2)
    tl = [f for f in an.P.fns.values() if f.short.startswith("Exclusion::") and "ExclusionLock" in (f.d.get("ret") or f.d.get("rt") or "ExclusionLock") and any(n["k"] == "ctor" and strip_t(n.get("t", "")).endswith("ExclusionLock") for n in f.nodes if n)]
    if R.check(tl, "exclusion locks are given out", "exclusion:none", "lib/task.cc", "no function gives out exclusion locks"):
        for f in tl:
            A = TryLock(an)
            A.task = {p["var"] for p in f.params}
            e = Engine(an.P, A)
            e.run(f, A.initial())
            R.states += e.nstates
            for fi, i in sorted(A.instances):
                R.ok("%s in %s" % (an.where(an.P.fns[fi], i), f.short), f)
            for v in A.violations.values():
                R.bad(v["key"], v["where"], v["msg"], v.get("path"), f)

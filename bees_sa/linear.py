"""Linear forms over symbolic atoms, and an automaton base that tracks how
integer variables change along a path."""
from .common import *


def lin(s, env=None):
    """sym -> {atom: coef}; constants under atom 1"""
    out = {}

    def add(s, c):
        k = konst(s)
        if k is not None:
            out[1] = out.get(1, 0) + c * k
            return
        if s[0] == "o" and len(s) == 4:
            if s[1] == "+":
                add(s[2], c)
                add(s[3], c)
                return
            if s[1] == "-":
                add(s[2], c)
                add(s[3], -c)
                return
            if s[1] == "*":
                for a, b in ((s[2], s[3]), (s[3], s[2])):
                    k = konst(a)
                    if k is not None:
                        add(b, c * k)
                        return
        if s[0] == "o" and s[1] == "-" and len(s) == 3:
            add(s[2], -c)
            return
        if s[0] == "c" and len(s) == 4 and last(s[1]) == "ranged_cast" and len(s[3]) == 1:
            add(s[3][0], c)
            return
        if env and s in env:
            for a, k in env[s]:
                out[a] = out.get(a, 0) + c * k
            return
        out[s] = out.get(s, 0) + c
    add(s, 1)
    return {a: k for a, k in out.items() if k}


def fz(d):
    return frozenset((a, k) for a, k in d.items() if k)


def sub(a, b):
    d = dict(a)
    for k, v in dict(b).items():
        d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


def add(a, b):
    d = dict(a)
    for k, v in dict(b).items():
        d[k] = d.get(k, 0) + v
    return {k: v for k, v in d.items() if v}


def neg(a):
    return {k: -v for k, v in dict(a).items()}


class LinAut(NameAut):
    """state: (env, extra); env: frozenset of (path sym, frozenset linear form)
    of paths assigned since the last rebase"""
    MAXT = 8

    def initial(self):
        return (frozenset(), self.init_extra())

    def init_extra(self):
        return ()

    def relevant(self, fn, i, n):
        return super().relevant(fn, i, n)

    def form(self, st, s):
        return lin(s, dict(st[0]))

    def _set(self, st, k, f):
        env = dict(st[0])
        if len(f) > self.MAXT or f == {k: 1}:
            env.pop(k, None)
            if len(f) > self.MAXT:
                env[k] = frozenset({(("opaque",), 1)})
        else:
            env[k] = fz(f)
        return (frozenset(env.items()), st[1])

    def on_bind(self, st, ctx, var, typ, s):
        if typ.endswith("&") or not self.numeric(typ):
            return None
        if var in ctx.fn.defs and any(d[0] in ("as", "mod", "outarg") for d in ctx.fn.defs[var]) or self._lam_mod(ctx.fn, var):
            if s[0] == "none":
                return None
            return [self._set(st, ("v", var), self.form(st, s))]
        return None

    def _lam_mod(self, fn, var):
        return any(any(d[0] in ("as", "mod", "outarg") for d in l.defs.get(var, ())) for l in self.P.lambdas_of(fn.id)) if getattr(self, "P", None) else False

    def numeric(self, typ):
        t = strip_t(typ)
        return t in ("int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "unsigned char", "char", "off_t", "size_t", "ssize_t",
                     "uint64_t", "int64_t", "uint32_t", "uint8_t", "auto", "__off_t", "__u64", "__u32") or t.endswith("_t")

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] not in ("v", "f", "g"):
            return None
        f = self.form(st, lhs)
        if op == "=":
            f = self.form(st, rhs)
        elif op in ("++", "p++"):
            f = add(f, {1: 1})
        elif op in ("--", "p--"):
            f = sub(f, {1: 1})
        elif op == "+=":
            f = add(f, self.form(st, rhs))
        elif op == "-=":
            f = sub(f, self.form(st, rhs))
        else:
            f = {("opaque", ctx.fn.id, ctx.node): 1}
        return [self._set(st, lhs, f)]

    def rebase(self, st, extra):
        return (frozenset(), extra)


def mentions(a, k):
    if a == k:
        return True
    if isinstance(a, (tuple, frozenset)):
        return any(mentions(x, k) for x in a)
    return False


def weight(a, cap):
    n = 1
    if isinstance(a, (tuple, frozenset)):
        for x in a:
            n += weight(x, cap - n)
            if n > cap:
                break
    return n


class ValAut(NameAut):
    """value numbering along a path: every local (and the fields named in
    self.tracked) is represented by a linear form over values that do not change.
    Integer locals that are stepped (+=, ++, -=, --) in a function advance
    together: once all of them moved by the same amount since the last time, the
    amount is dropped (on_advance is told).  State: (frozenset(var sym -> form), extra)"""
    expand = False
    tracked = ()

    def initial(self):
        return (frozenset(), frozenset())

    def group(self, fn):
        if not hasattr(self, "_grp"):
            self._grp = {}
        g = self._grp.get(fn.id)
        if g is None:
            g = set()
            for n in fn.nodes:
                if n and n["k"] == "as" and n["op"] in ("+=", "-=") or n and n["k"] == "un" and n["op"] in ("++", "p++", "--", "p--"):
                    x = n["L"] if n["k"] == "as" else n["s"]
                    x = fn.nodes[x]
                    while x and x["k"] == "cast":
                        x = fn.nodes[x["s"]]
                    if x and x["k"] == "ref" and x.get("vk") in ("l", "p"):
                        g.add(x["var"])
                elif n and n["k"] == "as" and n["op"] == "=":
                    v = self.self_step(fn, n)
                    if v:
                        g.add(v)
            self._grp[fn.id] = g
        return g

    @staticmethod
    def self_step(fn, n):
        """the variable v of `v = v + x`, `v = x + v` or `v = v - x`"""
        def ref(i):
            x = fn.nodes[i] if i is not None and i >= 0 else None
            while x and x["k"] == "cast":
                x = fn.nodes[x["s"]]
            return x
        L = ref(n["L"])
        if not L or L["k"] != "ref" or L.get("vk") not in ("l", "p"):
            return None
        R = ref(n["R"])
        if not R or R["k"] != "bin" or R["op"] not in ("+", "-"):
            return None
        for side in ("L", "R") if R["op"] == "+" else ("L",):
            x = ref(R[side])
            if x and x["k"] == "ref" and x.get("var") == L["var"]:
                return L["var"]
        return None

    def val(self, st, s):
        return self._val(dict(st[0]), s, 0)

    def _val(self, env, s, d):
        if d > 30:
            return frozenset({(s, 1)})
        if s in env:
            return env[s]
        k = konst(s)
        if k is not None:
            return frozenset({(1, k)} if k else ())
        if s[0] == "o" and len(s) == 4 and s[1] in ("+", "-"):
            a, b = self._val(env, s[2], d + 1), self._val(env, s[3], d + 1)
            return fz(add(a, b) if s[1] == "+" else sub(a, b))
        if s[0] == "c" and len(s) == 4 and last(s[1]) == "ranged_cast" and len(s[3]) == 1:
            return self._val(env, s[3][0], d + 1)
        a = self.atom(env, s, d)
        r = self.reduce(a)
        return r if r is not None else frozenset({(a, 1)})

    @staticmethod
    def form(t):
        """the linear form an operand of an atom stands for"""
        if t[0] == "L":
            return t[1]
        k = konst(t)
        if k is not None:
            return frozenset({(1, k)} if k else ())
        return frozenset({(t, 1)})

    def reduce(self, a):
        """the form of an atom that is known to equal something simpler"""
        if a[0] == "c" and len(a) == 4 and not a[3] and a[2] is not None and a[2][0] == "ctor" and len(a[2][2]) == 3:
            F, x, y = a[2][2]
            l = last(a[1])
            if a[2][1] == "BeesBlockData":
                r = {"size": y, "begin": x, "fd": F}.get(l)
                return self.form(r) if r is not None else None
            if a[2][1] == "BeesFileRange":
                if l == "size":
                    return fz(sub(self.form(y), self.form(x)))
                r = {"begin": x, "end": y, "fd": F}.get(l)
                return self.form(r) if r is not None else None
        return None

    def sub1(self, env, s, d):
        """s as an atom's operand: a plain sym when its value is one"""
        v = self._val(env, s, d + 1)
        if len(v) == 1:
            (a, c), = v
            if c == 1 and a != 1:
                return a
            if a == 1:
                return ("k", str(c))
        if not v:
            return ("k", "0")
        return ("L", v)

    def atom(self, env, s, d):
        if s[0] == "c" and len(s) == 4:
            return ("c", s[1], self.sub1(env, s[2], d) if s[2] is not None else None, tuple(self.sub1(env, x, d) for x in s[3]))
        if s[0] == "ctor":
            return ("ctor", s[1], tuple(self.sub1(env, x, d) for x in s[2]))
        if s[0] == "f":
            return ("f", self.sub1(env, s[1], d), s[2])
        if s[0] == "o":
            return s[:2] + tuple(self.sub1(env, x, d) if isinstance(x, tuple) else x for x in s[2:])
        if s[0] == "not":
            return ("not", self.sub1(env, s[1], d))
        if s[0] == "i":
            return ("i", self.sub1(env, s[1], d), self.sub1(env, s[2], d))
        return s

    def one(self, st, s):
        """the single atom s stands for, or None"""
        v = self.val(st, s)
        if len(v) == 1:
            (a, c), = v
            if c == 1 and a != 1:
                return a
        return None

    def put(self, st, k, form):
        env = dict(st[0])
        # values must not mention the variable that gets a new meaning
        me = lambda a: mentions(a, k)
        if form is not None and (any(me(a) for a, c in form) or weight(form, 401) > 400):
            form = frozenset({(("opaque", k), 1)})
        lost = {}
        for q, f in list(env.items()):
            if q != k and any(me(a) for a, c in f):
                env[q] = lost[q] = frozenset({(("opaque", q), 1)})
        if form is None:
            env.pop(k, None)
        else:
            env[k] = form
        ex = st[1]
        if lost and any(t[0] == "base" for t in ex):
            ex = frozenset(("base", t[1], lost.get(("v", t[1]), t[2])) if t[0] == "base" else t for t in ex)
        return (frozenset(env.items()), ex)

    def extra(self, st, ex):
        return (st[0], frozenset(ex))

    def on_bind(self, st, ctx, var, typ, s):
        if s[0] == "none":
            return [self.put(st, ("v", var), None)]
        f = self.val(st, s)
        st = self.put(st, ("v", var), f)
        if var in self.group(ctx.fn):
            st = (st[0], frozenset(t for t in st[1] if not (t[0] == "base" and t[1] == var)) | {("base", var, f)})
        return [st]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] == "f" and lhs[2] not in self.tracked:
            return None
        if lhs[0] not in "vf":
            return None
        f = self.val(st, lhs)
        if op == "=":
            f = self.val(st, rhs)
        elif op in ("++", "p++"):
            f = fz(add(f, {1: 1}))
        elif op in ("--", "p--"):
            f = fz(sub(f, {1: 1}))
        elif op == "+=":
            f = fz(add(f, self.val(st, rhs)))
        elif op == "-=":
            f = fz(sub(f, self.val(st, rhs)))
        else:
            f = frozenset({(("opaque", ctx.fn.id, ctx.node), 1)})
        if lhs[0] == "v" and op == "=" and lhs[1] in self.group(ctx.fn) and not (n["k"] == "as" and self.self_step(ctx.fn, n)):
            # starts anew
            st = self.put(st, lhs, f)
            f = dict(st[0]).get(lhs, frozenset({(lhs, 1)}))
            return [(st[0], frozenset(t for t in st[1] if not (t[0] in ("base", "steps") and t[1] == lhs[1])) | {("base", lhs[1], f)})]
        if lhs[0] == "v" and lhs[1] in self.group(ctx.fn):
            # stepped again and again without the others: its value is lost
            k = [t for t in st[1] if t[0] == "steps" and t[1] == lhs[1]]
            c = (k[0][2] if k else 0) + 1
            ex = frozenset(t for t in st[1] if not (t[0] in ("steps", "base") and t[1] == lhs[1])) | frozenset(t for t in st[1] if t[0] == "base" and t[1] == lhs[1])
            if c > 4:
                f = frozenset({(("opaque", lhs), 1)})
                ex = frozenset(t for t in ex if not (t[0] == "base" and t[1] == lhs[1])) | {("base", lhs[1], frozenset({(("opaque base", lhs), 1)}))}
                c = 4
            st = self.put((st[0], ex | {("steps", lhs[1], c)}), lhs, f)
            return self.advance(st, ctx)
        return [self.put(st, lhs, f)]

    def bases(self, st):
        return {t[1]: t[2] for t in st[1] if t[0] == "base"}

    def advance(self, st, ctx):
        env = dict(st[0])
        ds = {}
        for v, b in self.bases(st).items():
            ds[v] = fz(sub(env.get(("v", v), frozenset({(("v", v), 1)})), b))
        live = [d for d in ds.values()]
        if not live or any(not d for d in live):
            return [st]
        d0 = live[0]
        d1 = fz(neg(d0))
        if not all(d in (d0, d1) for d in live):
            return [st]
        ups = [v for v, d in ds.items() if d == d0]
        # the direction of an advance is that of a variable counting up
        up = d0
        st2 = (st[0], frozenset(t for t in st[1] if t[0] != "steps"))
        for v, b in self.bases(st).items():
            st2 = self.put(st2, ("v", v), b)
        r = self.on_advance(st2, ctx, up, d1)
        return [st2] if r is None else r

    def on_advance(self, st, ctx, d, minus):
        return None

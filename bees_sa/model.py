"""Program model over the exported facts: functions, symbolic access paths,
call resolution, definitions of locals, access classification."""
import re
from collections import defaultdict
from . import facts as F

NOISE_MACROS = {"BEESTRACE", "BEESNOTE", "BEESLOG", "BEESLOGINFO", "BEESLOGDEBUG", "BEESLOGNOTICE", "BEESLOGWARN",
                "BEESLOGERR", "BEESLOGTRACE", "BEESTOOLONG", "BEESCOUNT", "BEESCOUNTADD", "CHATTER", "CHATTER_TRACE",
                "CHATTER_UNWIND", "BEESLOGONCE"}

_op_re = re.compile(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|\(\)|\[\])")


def short(n):
    """drop template arguments and the crucible:: prefix from a qualified name"""
    m = _op_re.search(n)
    tail = ""
    if m:
        tail = n[m.start():m.end()]
        n = n[:m.start()]
    elif "operator " in n:
        i = n.index("operator ")
        tail = n[i:]
        n = n[:i]
    out = []
    d = 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    s = "".join(out) + tail
    s = s.replace("(anonymous namespace)::", "").replace("__cxx11::", "").replace("std::__1::", "std::")
    if s.startswith("crucible::"):
        s = s[10:]
    s = s.replace("::crucible::", "::")
    return s


def strip_t(t):
    """type name without template args, const, refs"""
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    if t.endswith(" const"):
        t = t[:-6]
    return short(t)


SMART = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::reference_wrapper", "std::optional"}
MOVE = {"std::move", "std::forward", "std::addressof", "std::as_const", "std::ref", "std::cref", "std::__addressof"}
CMP = {"==", "!=", "<", ">", "<=", ">="}


class Fn:
    __slots__ = ("prog", "d", "id", "name", "short", "file", "line", "nodes", "blocks", "entry", "exit", "cls", "params",
                 "_parents", "_defs", "bmap", "tries", "_single", "ret", "is_lambda", "noise", "_calls", "_reach")

    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self._qualify(d)
        self.id = d["id"]
        self.name = d["name"]
        self.short = short(d["name"])
        self.file = d["file"]
        self.line = d["line"]
        self.nodes = d["nodes"]
        self.blocks = d.get("blocks", [])
        self.bmap = {b["id"]: b for b in self.blocks}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.cls = short(d.get("cls", "")) if d.get("cls") else ""
        self.params = d["params"]
        self.tries = d.get("tries", [])
        self.ret = d.get("ret", "")
        self.is_lambda = bool(d.get("lambda"))
        self._parents = None
        self._defs = None
        self._single = None
        self.noise = False
        self._calls = None
        self._reach = None

    @staticmethod
    def _plain_atomics(nodes):
        """std::atomic reads, writes and increments become plain ones (the
        declared type still says that the variable is atomic)"""
        for i, n in enumerate(nodes):
            if not n or n["k"] not in ("call", "ctor"):
                continue
            nm = n.get("n", "")
            if not (nm.startswith("std::atomic<") or nm.startswith("std::__atomic_base<")):
                continue
            last = short(nm).rsplit("::", 1)[-1]
            a = n.get("a", [])
            if n["k"] == "ctor":
                if len(a) == 1:
                    nodes[i] = {"k": "cast", "ck": "NoOp", "s": a[0], "l": n.get("l"), "t": n["t"]}
                continue
            o = n.get("o")
            if o is None:
                continue
            r = {"l": n.get("l"), "t": n.get("t", "")}
            if "m" in n:
                r["m"] = n["m"]
            if last == "load" or (last.startswith("operator ") and not a):
                b = nodes[o]
                if b and b["k"] in ("ref", "mem", "idx"):
                    nodes[i] = dict(b, t=n.get("t", ""), l=n.get("l"))
                else:
                    nodes[i] = dict(r, k="cast", ck="NoOp", s=o)
            elif last in ("operator=", "store"):
                nodes[i] = dict(r, k="as", op="=", L=o, R=a[0])
            elif last in ("operator++", "operator--"):
                nodes[i] = dict(r, k="un", op=("p" if a else "") + last[8:], s=o)
            elif last.startswith("operator") and last[8:] in ("+=", "-=", "|=", "&=", "^="):
                nodes[i] = dict(r, k="as", op=last[8:], L=o, R=a[0])

    @staticmethod
    def _qualify(d):
        """make local variable ids unique across files"""
        if d.get("_q"):
            return
        d["_q"] = True
        Fn._plain_atomics(d["nodes"])
        sfx = "#" + d["file"]
        for p in d["params"]:
            p["var"] += sfx
        for n in d["nodes"]:
            if not n:
                continue
            k = n["k"]
            if k == "ref":
                if n.get("vk") in ("l", "p", "s"):
                    n["var"] += sfx
            elif k == "decl":
                for v in n["d"]:
                    v["var"] += sfx
                    if v.get("bind"):
                        v["bind"] = [b + sfx for b in v["bind"]]
            elif k == "lam":
                for c in n["caps"]:
                    if "var" in c:
                        c["var"] += sfx
        for b in d.get("blocks", ()):
            for e in b["el"]:
                if isinstance(e, dict) and "var" in e:
                    e["var"] += sfx
        for t in d.get("tries", ()):
            for h in t["h"]:
                if h.get("var"):
                    h["var"] += sfx

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.short, self.file, self.line)

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)

    def nd(self, i):
        return self.nodes[i] if i is not None and i >= 0 else None

    # ---------------------------------------------------------------- parents
    def children(self, n):
        k = n["k"]
        if k in ("call", "ctor"):
            r = [(i, ("arg", j)) for j, i in enumerate(n.get("a", ()))]
            if "o" in n:
                r.append((n["o"], ("obj",)))
            if "ind" in n:
                r.append((n["ind"], ("callee",)))
            return r
        if k == "mem":
            return [(n["b"], ("base",))]
        if k in ("un", "cast", "throw", "ret", "delete"):
            return [(n["s"], (k,))]
        if k in ("bin", "as"):
            return [(n["L"], ("L",)), (n["R"], ("R",))]
        if k == "cond":
            return [(n["c"], ("c",)), (n["T"], ("T",)), (n["F"], ("F",))]
        if k == "idx":
            return [(n["b"], ("ibase",)), (n["i"], ("ii",))]
        if k == "lam":
            return [(c["i"], ("cap", j)) for j, c in enumerate(n["caps"]) if "i" in c]
        if k == "decl":
            return [(v["init"], ("init", j)) for j, v in enumerate(n["d"])]
        if k in ("il", "other", "new"):
            r = [(i, ("sub", j)) for j, i in enumerate(n.get("a", ()))]
            if "s" in n:
                r.append((n["s"], ("sub", -1)))
            return r
        return []

    @property
    def parents(self):
        if self._parents is None:
            p = {}
            for i, n in enumerate(self.nodes):
                if not n:
                    continue
                for c, role in self.children(n):
                    if c is not None and c >= 0 and c not in p:
                        p[c] = (i, role)
            for b in self.blocks:
                for e in b["el"]:
                    if isinstance(e, dict) and e["k"] == "init" and e.get("e", -1) >= 0:
                        p.setdefault(e["e"], (-2, ("minit", e.get("fd") or e.get("base"))))
            self._parents = p
        return self._parents

    def live_nodes(self):
        """node indices that occur as elements of reachable CFG blocks"""
        if self._reach is None:
            seen = set()
            out = []
            if self.entry is not None:
                st = [self.entry]
                for t in self.tries:
                    for h in t["h"]:
                        if h["b"] >= 0:
                            st.append(h["b"])
                bs = set()
                while st:
                    b = st.pop()
                    if b in bs or b < 0 or b not in self.bmap:
                        continue
                    bs.add(b)
                    st += self.bmap[b]["su"]
                for b in self.blocks:
                    if b["id"] in bs:
                        for e in b["el"]:
                            if isinstance(e, int) and e >= 0 and e not in seen:
                                seen.add(e)
                                out.append(e)
            self._reach = out
        return self._reach

    def calls(self):
        """[(idx,node)] of calls and constructions in reachable code"""
        if self._calls is None:
            self._calls = [(i, self.nodes[i]) for i in self.live_nodes() if self.nodes[i]["k"] in ("call", "ctor")]
        return self._calls

    def is_noise(self, i):
        m = self.nodes[i].get("m")
        return bool(m) and any(x in NOISE_MACROS for x in m.split(","))

    # ---------------------------------------------------------------- defs
    @property
    def defs(self):
        """var id -> list of defining (kind, node idx, extra) in this function"""
        if self._defs is None:
            d = defaultdict(list)
            for i, n in enumerate(self.nodes):
                if not n:
                    continue
                if n["k"] == "decl":
                    for v in n["d"]:
                        d[v["var"]].append(("decl", v["init"], v))
                        for b in v.get("bind", ()):
                            d[b].append(("bind", v["init"], v))
                elif n["k"] == "as":
                    L = self.nd(n["L"])
                    if L and L["k"] == "ref":
                        d[L["var"]].append(("as" if n["op"] == "=" else "mod", n["R"], n))
                    while L and L["k"] == "mem" and not L.get("ar"):
                        # a member of a local object changes: the object is no longer its initial value
                        L = self.nd(L.get("b"))
                        if L and L["k"] == "ref" and L.get("vk") in ("l", "p") and not L.get("t", "*").rstrip().endswith("*"):
                            d[L["var"]].append(("mset", n["R"], n))
                elif n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
                    s = self.nd(n["s"])
                    if s and s["k"] == "ref":
                        d[s["var"]].append(("mod", -1, n))
                elif n["k"] == "un" and n["op"] == "&":
                    s = self.nd(n["s"])
                    if s and s["k"] == "ref" and s.get("vk") in ("l", "p", "s"):
                        d[s["var"]].append(("addr", -1, n))
                elif n["k"] in ("call", "ctor"):
                    pk = n.get("pk", "")
                    for j, a in enumerate(n.get("a", ())):
                        an = self.nd(a)
                        if an and an["k"] == "ref" and an.get("vk") in ("l", "p", "s") and j < len(pk) and pk[j] == "r":
                            d[an["var"]].append(("outarg", i, n))
                    if n["k"] == "call" and "o" in n and not n.get("cm"):
                        o = self.nd(n["o"])
                        if o and o["k"] == "ref" and o.get("vk") in ("l", "p", "s"):
                            d[o["var"]].append(("method", i, n))
            self._defs = dict(d)
        return self._defs

    def _benign_outarg(self, n, var, depth=0):
        """passed by reference, but every callee only reads it"""
        if depth > 3:
            return False
        js = [j for j, a in enumerate(n.get("a", ())) if (self.nd(a) or {}).get("var") == var]
        ts = self.prog.targets(n)
        if not ts or n.get("virt"):
            return False
        for t in ts:
            if not t.blocks:
                return False
            for j in js:
                if j >= len(t.params):
                    return False
                pv = t.params[j]["var"]
                for lf in [t] + self.prog.lambdas_of(t.id):
                    for x in lf.defs.get(pv, ()):
                        if x[0] != "outarg" or not lf._benign_outarg(x[2], pv, depth + 1):
                            return False
        return True

    def _changed_under(self, var, mods):
        """can one of the statements mods be followed by a use of local var
        without passing var's declaration in between"""
        pos = {}
        for b in self.blocks:
            for j, e in enumerate(b["el"]):
                if isinstance(e, int) and e >= 0:
                    pos[e] = (b["id"], j)
        par = self.parents

        def place(i):
            while i is not None and i >= 0:
                if i in pos:
                    return pos[i]
                i = par[i][0] if i in par else -1
            return None
        uses, decl, start = {}, None, []
        ids = {id(m) for m in mods}
        for i, n in enumerate(self.nodes):
            if not n:
                continue
            u = n["k"] == "ref" and n.get("var") == var
            if n["k"] == "lam" and any(c.get("var") == var for c in n["caps"]):
                q = par.get(i, (-1, None))[0]
                if q >= 0 and self.nodes[q]["k"] == "decl":
                    return True  # runs later
                u = True
            if u:
                w = place(i)
                if w is None:
                    return True
                uses.setdefault(w[0], []).append(w[1])
            if n["k"] == "decl" and any(v["var"] == var for v in n["d"]):
                decl = place(i)
            if id(n) in ids:
                start.append(place(i))
        if decl is None or None in start:
            return True
        for m in mods:
            if m["k"] == "un" or m["k"] == "as":
                i = next(j for j, n in enumerate(self.nodes) if n is m)
                for _ in range(8):
                    i = par.get(i, (-1, None))[0]
                    if i < 0:
                        break
                    if self.nodes[i]["k"] == "decl" and any(v["var"] == var for v in self.nodes[i]["d"]):
                        return True  # changed by the initialiser itself
        if self.tries:
            return True
        seen = set()
        work = [(b, j + 1) for b, j in start]
        while work:
            b, j = work.pop()
            if j == 0:
                if b in seen:
                    continue
                seen.add(b)
            stop = decl[1] if b == decl[0] and decl[1] >= j else None
            for u in uses.get(b, ()):
                if u >= j and (stop is None or u < stop):
                    return True
            if stop is None:
                work += [(x, 0) for x in self.bmap[b]["su"] if x >= 0 and x in self.bmap]
        return False

    def single_def(self, var):
        """init node of a local that is initialised once and never rebound"""
        if self._single is None:
            self._single = {}
        if var in self._single:
            return self._single[var]
        r = None
        ds = self.defs.get(var, [])
        decl = [x for x in ds if x[0] == "decl"]
        if len(decl) == 1 and decl[0][1] is not None and decl[0][1] >= 0:
            v = decl[0][2]
            t = v["t"]
            isref = t.endswith("&")
            ptrlike = t.endswith("*") or isref or t.startswith("const ") or strip_t(t) in SMART
            bad = False
            for x in ds:
                if x[0] == "mset" and not isref:
                    bad = True
                if x[0] in ("as", "mod", "outarg", "addr"):
                    if isref:
                        continue  # writes go through the reference; the binding stays
                    if x[0] == "outarg" and self._benign_outarg(x[2], var):
                        continue
                    bad = True
                elif x[0] == "method" and not isref:
                    op = x[2].get("op")
                    nm = short(x[2].get("n", ""))
                    if op in ("->", "*", "[]", "()"):
                        continue
                    if op == "=" or not ptrlike:
                        # a mutating member call changes the value but not, e.g., a container's identity
                        bad = True
                        if op != "=" and nm.split("::")[0] == "std":
                            bad = True
            # writes from lambdas that capture it by reference
            if not bad and not isref:
                for lf in self.prog.lambdas_of(self.id):
                    for x in lf.defs.get(var, []):
                        if x[0] in ("as", "mod", "outarg"):
                            bad = True
            # a copy of something that is later modified is not an alias of it
            if not bad and not isref:
                st = [decl[0][1]]
                while st and not bad:
                    n = self.nodes[st.pop()]
                    if not n or n["k"] == "lam":
                        continue
                    if n["k"] == "ref" and n.get("vk") in ("l", "p") and n["var"] != var:
                        ms = [x[2] for x in self.defs.get(n["var"], ()) if x[0] in ("as", "mod", "mset")]
                        if ms and self._changed_under(var, ms):
                            bad = True
                    st += [c for c, _ in self.children(n) if c is not None and c >= 0]
            if not bad:
                r = decl[0][1]
        elif len(ds) == 1 and ds[0][0] == "bind":
            r = None
        self._single[var] = r
        return r


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {}
        self.by_short = defaultdict(list)
        for fid, d in facts["functions"].items():
            f = Fn(self, d)
            self.fns[fid] = f
            self.by_short[f.short].append(f)
        self.records = {short(k): v for k, v in facts["records"].items()}
        self.records_full = facts["records"]
        self.enums = facts["enums"]
        self.globals = facts["globals"]
        self._lambdas = None
        self._callers = None
        self.over = defaultdict(list)  # base method id -> overriding fn ids
        for f in self.fns.values():
            for b in f.d.get("over", ()):
                self.over[b].append(f.id)
        for r in self.records_full.values():
            for m in r["methods"]:
                for b in m.get("over", ()):
                    if m["id"] not in self.over[b]:
                        self.over[b].append(m["id"])
        self._mt = {}
        self.lambda_owner = {}
        for f in self.fns.values():
            for n in f.nodes:
                if n and n["k"] == "lam":
                    for l in n["f"]:
                        self.lambda_owner[l] = f.id

    def fn(self, name, required=True):
        """the functions whose short qualified name is `name`"""
        r = self.by_short.get(name, [])
        if not r and required:
            raise F.AnalysisBroken("anchor function %s not found" % name)
        return r

    def one(self, name):
        r = [f for f in self.fn(name) if f.blocks]
        if not r:
            raise F.AnalysisBroken("anchor function %s has no body" % name)
        return r[0]

    def lambdas_of(self, fid):
        if self._lambdas is None:
            m = defaultdict(list)
            for l, o in self.lambda_owner.items():
                if l in self.fns:
                    m[o].append(self.fns[l])
            # nested lambdas belong to every enclosing function
            full = defaultdict(list)
            for o in list(m):
                st = list(m[o])
                seen = set()
                while st:
                    x = st.pop()
                    if x.id in seen:
                        continue
                    seen.add(x.id)
                    full[o].append(x)
                    st += m.get(x.id, [])
            self._lambdas = full
        return self._lambdas.get(fid, [])

    def overriders(self, fid):
        out = []
        st = [fid]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.fns and self.fns[x].blocks:
                out.append(self.fns[x])
            st += self.over.get(x, [])
        return out

    MAKERS = ("std::make_shared", "std::make_unique", "std::allocate_shared")

    @property
    def ctors(self):
        """class short name -> constructors with bodies"""
        if getattr(self, "_ctors", None) is None:
            m = defaultdict(list)
            for f in self.fns.values():
                if f.d.get("ctor") and f.blocks:
                    m[f.cls].append(f)
            self._ctors = m
        return self._ctors

    def made_class(self, n):
        """class built by a make_shared/make_unique call node, or None"""
        t = n.get("t", "")
        i = t.find("_ptr<")
        if i < 0:
            return None
        d = 0
        for j in range(i + 4, len(t)):
            if t[j] == "<":
                d += 1
            elif t[j] == ">":
                d -= 1
                if d == 0:
                    return strip_t(t[i + 5:j])
        return None

    def targets(self, n):
        """repo functions a call/ctor node may run"""
        if n["k"] == "call" and "n" in n and not n.get("vi"):
            nm = n["n"]
            if nm.startswith("std::make_") or nm.startswith("std::allocate_shared"):
                if short(nm) in self.MAKERS:
                    c = self.made_class(n)
                    na = len(n["a"])
                    out = []
                    for g in self.ctors.get(c, ()):
                        ps = g.params
                        if len(ps) < na:
                            continue
                        if na == 1 and len(ps) == 1:
                            # copy/move constructors only when given an object of the class
                            if strip_t(ps[0]["t"]) == c and g.d.get("impl"):
                                continue
                        out.append(g)
                    exact = [g for g in out if len(g.params) == na]
                    return exact or out[:1]
        f = n.get("f")
        if not f:
            return []
        if n.get("vi"):
            return self.overriders(f)
        g = self.fns.get(f)
        return [g] if g and g.blocks else []

    # every call site: callee fn id -> [(fn, idx)]
    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.fns.values():
                for i, n in f.calls():
                    for t in self.targets(n):
                        c[t.id].append((f, i))
                # destructors
                for b in f.blocks:
                    for e in b["el"]:
                        if isinstance(e, dict) and e["k"] == "dtor" and e.get("f") in self.fns:
                            c[e["f"]].append((f, -1))
            self._callers = c
        return self._callers

    def call_sites(self, pred):
        """[(fn, idx, node)] of every call/ctor in reachable code whose short name satisfies pred"""
        out = []
        for f in self.fns.values():
            for i, n in f.calls():
                nm = short(n.get("n", ""))
                if nm and pred(nm):
                    out.append((f, i, n))
        return out

    # ------------------------------------------------------------- may throw
    def may_throw(self, f):
        mt = self._mt_all()
        return f.id in mt

    STD_THROW = re.compile(r"(::at|^std::stoul|^std::stoull|^std::stoi|^std::stol|^std::rethrow_exception|^std::thread::thread|::shared_from_this|^std::stod)$")

    def node_throws_directly(self, f, n):
        if n["k"] == "throw":
            return True
        if n["k"] == "call":
            nm = short(n.get("n", ""))
            if self.STD_THROW.search(nm):
                return True
            if nm == "std::function::operator()":
                return True
            if "ind" in n:
                return False
        return False

    def catches_all(self, f, ty):
        """does the try nest around `ty` stop every exception from leaving the function"""
        while ty is not None and ty >= 0:
            t = f.tries[ty]
            for h in t["h"]:
                tt = h["t"]
                if tt == "" or strip_t(tt) == "std::exception" or h["t"] == -1:
                    return True
            ty = t["parent"]
        return False

    def _mt_all(self):
        if "all" in self._mt:
            return self._mt["all"]
        mt = set()
        callers = self.callers
        work = []
        for f in self.fns.values():
            if f.d.get("nt") and not f.d.get("dtor"):
                continue
            for i in f.live_nodes():
                n = f.nodes[i]
                if self.node_throws_directly(f, n) and not self.catches_all(f, n.get("ty")):
                    if f.id not in mt:
                        mt.add(f.id)
                        work.append(f.id)
                    break
        while work:
            x = work.pop()
            for (c, i) in callers.get(x, ()):
                if c.id in mt or (c.d.get("nt") and not c.d.get("dtor")):
                    continue
                if i >= 0 and self.catches_all(c, c.nodes[i].get("ty")):
                    continue
                mt.add(c.id)
                work.append(c.id)
        self._mt["all"] = mt
        return mt

    # ------------------------------------------------------------- symbols
    def sym(self, fn, i, env=None, depth=0, expand=True):
        """symbolic access path / value of node i of fn, under env
        (var id -> sym, 'this' -> sym)"""
        n = fn.nd(i)
        if n is None:
            return ("none",)
        if depth > 24:
            return ("?", fn.id, i)
        k = n["k"]
        S = lambda j: self.sym(fn, j, env, depth + 1, expand)
        if k == "this":
            if env and "this" in env:
                return env["this"]
            return ("this",)
        if k == "ref":
            vk = n.get("vk")
            if vk == "f":
                return ("fn", short(n["var"]))
            if vk == "e":
                return ("k", n.get("v", n["var"]))
            if vk == "g":
                if "v" in n and not n.get("rd"):
                    pass
                return ("g", short(n["var"]))
            var = n["var"]
            if env and var in env:
                return env[var]
            if vk in ("l", "s", "p") and expand:
                owner = fn
                j = None
                # look in this function, then in the lambda's owners
                guard = 0
                while owner is not None and guard < 6:
                    guard += 1
                    if var in owner.defs and any(x[0] in ("decl", "bind") for x in owner.defs[var]):
                        j = owner.single_def(var)
                        break
                    o = self.lambda_owner.get(owner.id)
                    owner = self.fns.get(o) if o else None
                if j is not None and j >= 0 and vk != "s":
                    jn = owner.nd(j)
                    if jn and jn["k"] != "zero":
                        if owner is fn:
                            return S(j)
                        return self.sym(owner, j, env, depth + 1, expand)
            return ("v", var)
        if k == "other" and n.get("cls") == "CompoundLiteralExpr" and len(n.get("a", ())) == 1:
            return S(n["a"][0])
        if k == "mem":
            b = S(n["b"])
            fd = short(n["fd"])
            if b[0] == "ctor" and len(b[2]) == 2 and fd.startswith("std::pair::"):
                return b[2][0 if fd.endswith("first") else 1]
            return ("f", b, fd)
        if k == "lit":
            if "null" in n:
                return ("k", "0")
            return ("k", n.get("v", "?"))
        if k == "flit":
            return ("k", n.get("v"))
        if k == "str":
            return ("s", n.get("s", ""))
        if k == "sizeof":
            return ("k", n.get("v", "sizeof"))
        if k == "zero":
            return ("k", "0")
        if k == "cast":
            if "v" in n:
                return ("k", n["v"])
            return S(n["s"])
        if k == "un":
            op = n["op"]
            if op in ("*", "&"):
                return S(n["s"])
            if op == "!":
                return ("not", S(n["s"]))
            if "v" in n:
                return ("k", n["v"])
            return ("o", op, S(n["s"]))
        if k == "bin":
            if "v" in n:
                return ("k", n["v"])
            return self.mkop(n["op"], S(n["L"]), S(n["R"]))
        if k == "as":
            return S(n["L"]) if n["op"] == "=" else ("o", n["op"], S(n["L"]), S(n["R"]))
        if k == "cond":
            return ("o", "?:", S(n["c"]), S(n["T"]), S(n["F"]))
        if k == "idx":
            return ("i", S(n["b"]), S(n["i"]))
        if k == "lam":
            return ("lam", n["f"][0] if n["f"] else "", ())
        if k == "ctor":
            a = [S(x) for x in n["a"]]
            nm = short(n.get("n", ""))
            if (n.get("cp") or n.get("mv")) and len(a) >= 1:
                return a[0]
            cls = nm.rsplit("::", 1)[0]
            if len(a) == 1 and (cls in SMART or cls in ("std::function", "std::basic_string") or a[0][0] == "lam"):
                if cls != "Cleanup":
                    return a[0]
            if cls in SMART and not a:
                return ("k", "0")
            return ("ctor", cls, tuple(a))
        if k == "call":
            if "ind" in n:
                return ("c", "*indirect", S(n["ind"]), tuple(S(x) for x in n["a"]))
            nm = short(n.get("n", ""))
            last = nm.rsplit("::", 1)[-1]
            a = tuple(S(x) for x in n["a"])
            o = S(n["o"]) if "o" in n else None
            op = n.get("op")
            if op in CMP:
                l, r = (o, a[0]) if o is not None else (a[0], a[1]) if len(a) > 1 else (a[0], ("none",))
                return self.mkop(op, l, r)
            if op in ("->", "*") and not (o is None and len(a) == 2) and not (o is not None and len(a) == 1):
                return o if o is not None else a[0]
            if op == "!" and (o is not None or len(a) == 1):
                return ("not", o if o is not None else a[0])
            if op == "[]" and o is not None:
                return ("i", o, a[0])
            if op == "=" and o is not None:
                return o
            if op and op not in ("()", "<<", ">>", ",", "->", "*", "=", "[]"):
                return ("o", op) + ((o,) if o is not None else ()) + a
            if last == "operator bool" or last.startswith("operator "):
                return o if o is not None else ("c", nm, None, a)
            if nm in MOVE and len(a) == 1:
                return a[0]
            if last == "get" and o is not None and nm.rsplit("::", 1)[0] in SMART:
                return o
            if last == "value" and nm.startswith("std::optional"):
                return o
            if last == "shared_from_this" and o is not None:
                return o
            return ("c", nm, o, a)
        if k == "il":
            if len(n["a"]) == 1:
                return S(n["a"][0])
            return ("il",) + tuple(S(x) for x in n["a"])
        if k == "new":
            return ("c", "new", None, (S(n["s"]),) if n.get("s", -1) is not None and n.get("s", -1) >= 0 else ())
        return ("?", fn.id, i)

    def mkop(self, op, l, r):
        if op == ">":
            return ("o", "<", r, l)
        if op == ">=":
            return ("not", ("o", "<", l, r))
        if op == "<=":
            return ("not", ("o", "<", r, l))
        if op == "!=":
            return ("not", self.mkop("==", l, r))
        if op == "==":
            if repr(l) > repr(r):
                l, r = r, l
            return ("o", "==", l, r)
        return ("o", op, l, r)

    def facts_of(self, s, pol):
        """atomic facts implied by boolean sym s having value pol"""
        out = []
        st = [(s, pol)]
        while st:
            x, p = st.pop()
            if x[0] == "not":
                st.append((x[1], not p))
                continue
            if x[0] == "o" and x[1] == "&&" and p:
                st += [(x[2], True), (x[3], True)]
                continue
            if x[0] == "o" and x[1] == "||" and not p:
                st += [(x[2], False), (x[3], False)]
                continue
            if x[0] == "o" and x[1] == "==" and x[2][0] == "k" and x[2][1] in ("0",):
                # x == 0/null/false
                out.append((x[3], not p))
            if x[0] == "o" and x[1] == "==" and x[3][0] == "k" and x[3][1] in ("0",):
                out.append((x[2], not p))
            if x[0] == "c" and x[1].endswith("::empty"):
                pass
            out.append((x, p))
        return out

    def cases_of(self, s, pol, cap=8):
        """the ways in which boolean sym s can have value pol, each a list of
        atomic facts; a single (possibly empty) list if there is only one"""
        while s and s[0] == "not":
            s, pol = s[1], not pol
        if s and s[0] == "o" and s[1] in ("&&", "||") and len(s) == 4:
            if (s[1] == "&&") == pol:
                out = [a + b for a in self.cases_of(s[2], pol, cap) for b in self.cases_of(s[3], pol, cap)]
            else:
                out = self.cases_of(s[2], pol, cap) + [a + b for a in self.cases_of(s[2], not pol, cap) for b in self.cases_of(s[3], pol, cap)]
            return out if len(out) <= cap else [[]]
        return [self.facts_of(s, pol)]

    # ------------------------------------------------------------- pure returns
    def pure_return(self, fn):
        """node of the single return expression if fn is a plain getter/predicate"""
        rets = [i for i in fn.live_nodes() if fn.nodes[i]["k"] == "ret"]
        if len(rets) != 1 or fn.tries:
            return None
        for i in fn.live_nodes():
            n = fn.nodes[i]
            if fn.is_noise(i):
                continue
            if n["k"] in ("as", "delete", "new"):
                return None
            if n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
                return None
        return fn.nodes[rets[0]]["s"]

    def expand_calls(self, s, depth=0):
        """replace calls to repo getters/predicates by their returned expression"""
        if depth > 6 or not isinstance(s, tuple):
            return s
        if s and s[0] == "c" and len(s) == 4 and isinstance(s[1], str):
            cands = [f for f in self.by_short.get(s[1], []) if f.blocks and len(f.params) == len(s[3])]
            if len(cands) == 1 and not cands[0].d.get("virt"):
                f = cands[0]
                r = self.pure_return(f)
                if r is not None and r >= 0:
                    env = {}
                    if s[2] is not None:
                        env["this"] = s[2]
                    for p, a in zip(f.params, s[3]):
                        env[p["var"]] = a
                    return self.expand_calls(self.sym(f, r, env), depth + 1)
        return tuple(self.expand_calls(x, depth) if isinstance(x, tuple) else x for x in s)


    def expand_pred(self, s, depth=0):
        """expand predicate functions in the boolean structure of s only, so
        that the operands of the comparisons they make stay as they were"""
        if depth > 4 or not isinstance(s, tuple) or not s:
            return s
        if s[0] == "not":
            return ("not", self.expand_pred(s[1], depth))
        if s[0] == "o" and s[1] in ("&&", "||") and len(s) == 4:
            return ("o", s[1], self.expand_pred(s[2], depth), self.expand_pred(s[3], depth))
        if s[0] == "c" and len(s) == 4 and isinstance(s[1], str):
            cands = [f for f in self.by_short.get(s[1], []) if f.blocks and len(f.params) == len(s[3])]
            if len(cands) == 1 and not cands[0].d.get("virt"):
                f = cands[0]
                r = self.pure_return(f)
                if r is not None and r >= 0:
                    env = {"this": s[2]} if s[2] is not None else {}
                    for p, a in zip(f.params, s[3]):
                        env[p["var"]] = a
                    return self.expand_pred(self.sym(f, r, env), depth + 1)
        return s


def walk(s):
    """all sub-terms of a sym"""
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st += [y for y in x if isinstance(y, tuple)]


def has(s, pred):
    return any(pred(x) for x in walk(s))


def show(s, n=160):
    def r(x):
        if not isinstance(x, tuple):
            return str(x)
        t = x[0] if x else ""
        if t == "this":
            return "this"
        if t in ("v",):
            return x[1].split("@")[0]
        if t in ("g", "k", "fn"):
            return str(x[1])
        if t == "s":
            return '"%s"' % x[1]
        if t == "f":
            return r(x[1]) + "." + x[2].rsplit("::", 1)[-1]
        if t == "i":
            return r(x[1]) + "[" + r(x[2]) + "]"
        if t == "not":
            return "!" + r(x[1])
        if t == "c":
            return ((r(x[2]) + ".") if x[2] else "") + x[1].rsplit("::", 1)[-1] + "(" + ", ".join(r(a) for a in x[3]) + ")"
        if t == "ctor":
            return x[1] + "(" + ", ".join(r(a) for a in x[2]) + ")"
        if t == "o":
            if len(x) == 4:
                return "(" + r(x[2]) + " " + x[1] + " " + r(x[3]) + ")"
            return x[1] + "(" + ", ".join(r(a) for a in x[2:]) + ")"
        if t == "lam":
            return "<lambda>"
        if t == "?":
            return "?"
        return t + "(" + ",".join(r(a) for a in x[1:]) + ")"
    o = r(s)
    return o if len(o) <= n else o[:n] + "…"

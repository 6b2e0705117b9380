"""C23 orderings: what sorts, finds and tells apart entries is an order.

Every comparison function is evaluated, abstractly, over all ways in which the
parts of two (and three) values can be related; no values are involved."""
import itertools
from .common import *
from .rules_crawl import lam_nodes

SORTS = ("sort", "stable_sort", "partial_sort", "nth_element", "lower_bound", "upper_bound", "binary_search", "equal_range",
         "max_element", "min_element", "minmax_element", "push_heap", "pop_heap", "make_heap", "sort_heap", "is_sorted",
         "merge", "set_union", "set_difference", "set_intersection", "inplace_merge", "priority_queue")
A, B = ("@A",), ("@B",)
REL = "<=>"
FLIP = {"<": ">", ">": "<", "=": "="}
# what makes two entries the same one, where the class has no ==
IDENT = {"BtrfsIoctlSearchHeader": ("objectid", "type", "offset")}


class Undecided(Exception):
    pass


def side(s):
    """which of the two values s depends on"""
    out = set()
    for t in subterms(s):
        if t == A or t == B:
            out.add(t)
    return out


def shape(s):
    if s == A or s == B:
        return ("@",)
    if isinstance(s, tuple):
        return tuple(shape(x) if isinstance(x, tuple) else x for x in s)
    return s


class Cmp:
    """one comparison function of two values"""

    def __init__(self, an, f):
        self.an, self.P, self.f = an, an.P, f
        self.leaves, self.preds = [], []
        self.asg = None
        self.explore()

    # ---- discovery: run with an assignment that grows
    def explore(self):
        """collect the parts compared, by evaluating under every assignment"""
        while True:
            n = (len(self.leaves), len(self.preds))
            for asg in self.pairs():
                self.run(asg)
                if (len(self.leaves), len(self.preds)) != n:
                    break
            else:
                return
            if len(self.leaves) > 6 or len(self.preds) > 5:
                raise Undecided("it compares too many parts")

    def pairs(self):
        for r in itertools.product(REL, repeat=len(self.leaves)):
            for p in itertools.product((False, True), repeat=len(self.preds)):
                for q in itertools.product((False, True), repeat=len(self.preds)):
                    asg = (r, p, q)
                    if self.valid(asg):
                        yield asg

    def valid(self, asg):
        r, p, q = asg
        rel = dict(zip(self.leaves, r))
        for l, v in rel.items():
            # clearing low bits keeps the order
            m = mask_base(l)
            if m is not None and m in rel:
                if rel[m] == "=" and v != "=" or rel[m] != "=" and v not in ("=", rel[m]):
                    return False
            # one open file is one file
            if l[0] == "f" and l[1] == ("@",) and last(l[2]) == "m_fd" and v == "=":
                for k, w in rel.items():
                    if (k[0] == "c" and last(k[1]) == "fid" or k[0] == "f" and last(k[2]) == "m_fid") and w != "=":
                        return False
        if p != q and all(v == "=" for l, v in rel.items()):
            for k, (x, y) in enumerate(zip(p, q)):
                if x != y and not self.independent(self.preds[k]):
                    return False
        return True

    def independent(self, pr):
        """the predicate can differ although all that is compared is equal:
        it reads a part that is not compared"""
        fs = {t for t in subterms(pr) if t and t[0] == "f" and t[1] == ("@",)}
        return bool(fs) and not any(t in self.leaves for t in fs)

    # ---- evaluation
    def swap(self, asg):
        r, p, q = asg
        return (tuple(FLIP[x] for x in r), q, p)

    def run(self, asg, args=(A, B)):
        self.asg = asg
        self.depth = 0
        v = self.call(self.f, args)
        return self.truth(v)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 8:
            raise Undecided("it calls too deeply")
        env = {}
        args = list(args)
        if f.cls and not f.is_lambda and len(args) == len(f.params) + 1:
            env["this"] = args.pop(0)
        for p, a in zip(f.params, args):
            env[p["var"]] = a
        b = f.bmap[f.entry]
        steps = 0
        while True:
            steps += 1
            if steps > 200:
                raise Undecided("it loops")
            for e in b["el"]:
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                if not n or f.is_noise(e):
                    continue
                if n["k"] == "ret":
                    v = self.P.sym(f, n["s"], env)
                    self.depth -= 1
                    return v
                if n["k"] == "decl":
                    for d in n["d"]:
                        if d.get("init", -1) is not None and d.get("init", -1) >= 0 and not d.get("bind"):
                            env[d["var"]] = self.P.sym(f, d["init"], env)
                elif n["k"] == "as" and f.nodes[n["L"]]["k"] == "ref":
                    v = f.nodes[n["L"]]["var"]
                    env[v] = self.P.sym(f, n["R"], env) if n["op"] == "=" else ("o", n["op"][:-1], env.get(v, ("v", v)), self.P.sym(f, n["R"], env))
            su = [x for x in b["su"] if x is not None]
            if not su:
                raise Undecided("it does not return")
            if len(b["su"]) == 1 or "tc" not in b:
                b = f.bmap[su[0]]
                continue
            if len(b["su"]) != 2:
                raise Undecided("it switches")
            c = self.truth(self.P.sym(f, b["tc"], env))
            nx = b["su"][0 if c else 1]
            if nx is None:
                raise Undecided("a branch that cannot be")
            b = f.bmap[nx]

    def leaf(self, sh):
        if sh not in self.leaves:
            self.leaves.append(sh)
            self.leaf_new = True
            return "="
        k = self.leaves.index(sh)
        return self.asg[0][k] if k < len(self.asg[0]) else "="

    def pred(self, sh, sd):
        if sh not in self.preds:
            self.preds.append(sh)
            return False
        k = self.preds.index(sh)
        v = self.asg[1 if sd == A else 2]
        return v[k] if k < len(v) else False

    def components(self, s):
        """parts of a tuple value, or None"""
        if s[0] == "c" and last(s[1]) in ("tie", "make_tuple", "forward_as_tuple", "make_pair") and s[2] is None:
            return list(s[3])
        if s[0] == "ctor" and s[1] in ("std::tuple", "std::pair"):
            return list(s[2])
        if s[0] == "c" and len(s) == 4:
            f = self.target(s)
            if f is not None and ("tuple<" in f.ret or "pair<" in f.ret):
                return self.components(self.call(f, self.args(s)))
        return None

    def target(self, s):
        if s[2] is not None and s[2][0] == "lam" and s[2][1] in self.P.fns:
            return self.P.fns[s[2][1]]
        c = [f for f in self.P.by_short.get(s[1], []) if f.blocks and len(f.params) == len(s[3])]
        return c[0] if len(c) == 1 and not c[0].d.get("virt") else None

    def args(self, s):
        return ([s[2]] if s[2] is not None and s[2][0] != "lam" else []) + list(s[3])

    def num(self, s):
        if s[0] == "k":
            try:
                return int(s[1])
            except (TypeError, ValueError):
                return None
        return None

    def isbool(self, s):
        if s[0] == "not" or s[0] == "o" and s[1] in ("<", "==", "&&", "||"):
            return True
        if s[0] == "k" and s[1] in ("true", "false"):
            return True
        if s[0] == "c" and len(s) == 4:
            f = self.target(s)
            return f is not None and f.ret == "bool"
        return False

    def cmp(self, x, y):
        """relation of two values"""
        cx, cy = self.components(x), self.components(y)
        if cx is not None or cy is not None:
            if cx is None or cy is None or len(cx) != len(cy):
                raise Undecided("it compares %s with %s" % (show(x, 60), show(y, 60)))
            for a, b in zip(cx, cy):
                r = self.cmp(a, b)
                if r != "=":
                    return r
            return "="
        if x == y:
            return "="
        nx, ny = self.num(x), self.num(y)
        if nx is not None and ny is not None:
            return "<" if nx < ny else ">" if nx > ny else "="
        if self.isbool(x) or self.isbool(y):
            a, b = self.truth(x), self.truth(y)
            return "=" if a == b else "<" if a < b else ">"
        for s in (x, y):
            if s[0] == "o" and s[1] == "?:":
                v = self.pick(s)
                return self.cmp(v, y) if s is x else self.cmp(x, v)
            if s[0] == "c" and len(s) == 4 and (self.num(y if s is x else x) is not None or len(side(s)) == 2):
                f = self.target(s)
                if f is not None and f.ret in ("int", "long", "bool"):
                    v = self.call(f, self.args(s))
                    return self.cmp(v, y) if s is x else self.cmp(x, v)
        sx, sy = side(x), side(y)
        if len(sx) == 1 and len(sy) == 1 and sx != sy:
            ex, ey = self.P.expand_calls(x), self.P.expand_calls(y)
            for a, b in ((x, y), (ex, ey)):
                if shape(a) == shape(b):
                    r = self.leaf(shape(ex) if shape(ex) == shape(ey) else shape(a))
                    return r if sx == {A} else FLIP[r]
        raise Undecided("it compares %s with %s" % (show(x, 60), show(y, 60)))

    def pick(self, s):
        return s[3] if self.truth(s[2]) else s[4]

    def truth(self, s):
        if s[0] == "k":
            if s[1] in ("true", "false"):
                return s[1] == "true"
            n = self.num(s)
            if n is not None:
                return n != 0
        if s[0] == "not":
            return not self.truth(s[1])
        if s[0] == "o" and len(s) == 4:
            if s[1] == "&&":
                return self.truth(s[2]) and self.truth(s[3])
            if s[1] == "||":
                return self.truth(s[2]) or self.truth(s[3])
            if s[1] in ("<", "=="):
                x, y = s[2], s[3]
                sd = side(x) | side(y)
                if len(sd) == 1 and x != y:
                    return self.pred(shape(s), next(iter(sd)))
                if s[1] == "==":
                    f = self.eq_fn(x, y)
                    if f is not None:
                        return self.truth(self.call(f, (x, y)))
                r = self.cmp(x, y)
                return r == "<" if s[1] == "<" else r == "="
            if s[1] in ("^", "|", "&") and self.isbool(s[2]) and self.isbool(s[3]):
                a, b = self.truth(s[2]), self.truth(s[3])
                return a != b if s[1] == "^" else a or b if s[1] == "|" else a and b
        if s[0] == "o" and s[1] == "?:":
            return self.truth(self.pick(s))
        if s[0] == "c" and len(s) == 4:
            if len(side(s)) == 2:
                f = self.target(s)
                if f is not None:
                    return self.truth(self.call(f, self.args(s)))
                if last(s[1]) == "operator()" and s[2] and s[2][0] == "ctor" and s[2][1].startswith("std::less"):
                    return self.cmp(s[3][0], s[3][1]) == "<"
                if last(s[1]) == "operator()" and s[2] and s[2][0] == "ctor" and s[2][1].startswith("std::greater"):
                    return self.cmp(s[3][0], s[3][1]) == ">"
        if s[0] == "c" and s[1] == "*indirect" and s[2] and s[2][0] == "lam":
            g = self.P.fns.get(s[2][1])
            if g is not None:
                return self.truth(self.call(g, s[3]))
        sd = side(s)
        if len(sd) == 1:
            return self.pred(shape(s), next(iter(sd)))
        raise Undecided("it decides by %s" % show(s, 80))

    def eq_fn(self, x, y):
        """the whole values compared with another comparison function"""
        if {x, y} != {A, B}:
            return None
        c = [f for f in self.P.by_short.get(cls_of(self.f) + "::operator==", []) if same_type(f)]
        return c[0] if c and c[0] is not self.f else None

    # ---- laws
    def table(self):
        t = {}
        for asg in self.pairs():
            t[asg] = self.run(asg)
        return t

    def tell(self, asg):
        """what relation of the parts, in words"""
        w = {"<": "smaller", "=": "equal", ">": "greater"}
        out = ["%s %s" % (show(unshape(l), 60), w[r]) for l, r in zip(self.leaves, asg[0])]
        for k, p in enumerate(self.preds):
            out.append("%s %s/%s" % (show(unshape(p), 60), asg[1][k], asg[2][k]))
        return ", ".join(out)


def unshape(s):
    if s == ("@",):
        return ("v", "x")
    return tuple(unshape(x) if isinstance(x, tuple) else x for x in s) if isinstance(s, tuple) else s


def mask_base(l):
    if l[0] == "o" and l[1] == "&" and len(l) == 4 and l[3][0] == "k":
        try:
            m = ~int(l[3][1]) % 2 ** 64
        except ValueError:
            return None
        if m & (m + 1) == 0:
            return l[2]
    return None


def cls_of(f):
    if f.is_lambda or not f.cls:
        return base_type(f.params[0]["t"])
    return f.cls


def base_type(t):
    return strip_t(t.replace("const", "").replace("&", "").strip()) if t else ""


def same_type(f):
    """compares two values of one type"""
    if f.is_lambda or not f.cls:
        return len(f.params) == 2 and last(base_type(f.params[0]["t"])) == last(base_type(f.params[1]["t"]))
    if last(f.short) == "operator()":
        return len(f.params) == 2 and base_type(f.params[0]["t"]) == base_type(f.params[1]["t"])
    return len(f.params) == 1 and last(base_type(f.params[0]["t"])) == last(f.cls)


WEAK3 = []
for _r in itertools.product(range(3), repeat=3):
    _c = lambda a, b: "<" if _r[a] < _r[b] else ">" if _r[a] > _r[b] else "="
    _t = (_c(0, 1), _c(1, 2), _c(0, 2))
    if _t not in WEAK3:
        WEAK3.append(_t)


def laws(c, lt):
    """(law, counterexample) that the ordering breaks"""
    bad = []
    eq = ("=",) * len(c.leaves)
    for p in itertools.product((False, True), repeat=len(c.preds)):
        if lt.get((eq, p, p)):
            bad.append(("irreflexive", "a value comes before its equal", (eq, p, p)))
            break
    for asg, v in lt.items():
        if v and lt.get(c.swap(asg)):
            bad.append(("asymmetric", "each of two values comes before the other", asg))
            break
    if bad:
        return bad
    trs = {((), (), ())}
    for _ in c.leaves:
        trs = {(x + (t[0],), y + (t[1],), z + (t[2],)) for x, y, z in trs for t in WEAK3}
    bits = list(itertools.product((False, True), repeat=len(c.preds)))
    done = set()
    for x, y, z in sorted(trs):
        for bx in bits:
            for by in bits:
                xy = (x, bx, by)
                if xy not in lt:
                    continue
                for bz in bits:
                    yz, xz = (y, by, bz), (z, bx, bz)
                    if yz not in lt or xz not in lt:
                        continue
                    if "t" not in done and lt[xy] and lt[yz] and not lt[xz]:
                        done.add("t")
                        bad.append(("transitive", "one value comes before a second, that before a third, but the first does not come before the third", xz))
                    if "e" not in done:
                        ne = lambda a: not lt[a] and not lt[c.swap(a)]
                        if ne(xy) and ne(yz) and not ne(xz):
                            done.add("e")
                            bad.append(("ties", "two values tie with a third, but not with each other", xz))
                    if len(done) == 2:
                        return bad
    return bad


def comparators(an):
    """(function, name) of what orders values"""
    P = an.P
    out = []
    for f in P.fns.values():
        if f.blocks and last(f.short) == "operator<" and same_type(f) and f.ret == "bool":
            out.append((f, (cls_of(f) or "?") + "::operator<", "op"))
    L = lam_nodes(an)
    seen = set()
    for f in P.fns.values():
        if not f.blocks:
            continue
        for i in f.live_nodes():
            n = f.nodes[i]
            if not n or n["k"] not in ("call", "ctor"):
                continue
            nm = n.get("n", "")
            if not nm.startswith("std::"):
                continue
            if n["k"] == "call" and last(short(nm)) not in SORTS:
                continue
            if n["k"] == "ctor" and not any(nm.startswith("std::" + c) for c in ("set<", "map<", "multiset<", "multimap<", "priority_queue<")):
                continue
            for a in n.get("a", ()):
                for t in subterms(P.sym(f, a)):
                    g = None
                    if t and t[0] == "lam" and t[1] in P.fns:
                        g = P.fns[t[1]]
                    elif t and t[0] == "fn":
                        c = [x for x in P.by_short.get(t[1], []) if x.blocks and same_type(x)]
                        g = c[0] if len(c) == 1 else None
                    elif t and t[0] == "ctor":
                        c = [x for x in P.by_short.get(t[1] + "::operator()", []) if x.blocks and same_type(x)]
                        g = c[0] if len(c) == 1 else None
                    if g is not None and g.blocks and same_type(g) and g.id not in seen:
                        seen.add(g.id)
                        out.append((g, "%s in %s" % (last(short(nm)), an.owner_of(f).short if f.is_lambda else f.short), "sort"))
    return out


def order(an, R):
    """a comparison function is a strict weak order"""
    cs = {}
    for f, nm, kind in comparators(an):
        try:
            c = Cmp(an, f)
            lt = c.table()
        except Undecided as e:
            R.bad("%s:undecided" % nm, f.loc, "%s is not an order of its parts: %s" % (nm, e), [f.loc], f.id)
            continue
        cs[f.id] = (c, lt, nm, kind, f)
        if f.ret != "bool":
            R.bad("%s:result" % nm, f.loc, "%s answers with %s: every non-zero answer counts as 'comes before'" % (nm, f.ret), [f.loc], f.id)
        b = laws(c, lt)
        R.ok("%s: %d relations of %d parts" % (nm, len(lt), len(c.leaves)), f)
        for law, what, asg in b:
            R.bad("%s:%s" % (nm, law), f.loc, "%s is not a strict weak order: %s (%s)" % (nm, what, c.tell(asg)), [f.loc], f.id)
    return cs


def fields_of(P, cls):
    out, work, seen = [], [cls], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        r = P.records.get(x) or P.records.get(last(x))
        if not r:
            continue
        out += [(x, fl["name"], fl["t"]) for fl in r["fields"]]
        work += [b if isinstance(b, str) else b.get("n", b.get("t", "")) for b in r["bases"]]
    return out


def keyed(an):
    """classes that are themselves the key of a set or map"""
    out = set()
    import re
    pat = re.compile(r"std::(?:multi)?(?:set|map)<(?:const )?([A-Za-z_0-9:]+)[,>]")
    for f in an.P.fns.values():
        for n in f.nodes:
            if n and "t" in n and ("set<" in n["t"] or "map<" in n["t"]):
                out |= {last(x) for x in pat.findall(n["t"])}
    for r in an.P.records.values():
        for fl in r["fields"]:
            out |= {last(x) for x in pat.findall(fl["t"])}
    return out


def identity(an, R, cs):
    """two entries are one entry exactly when they are equal"""
    P = an.P
    keys = keyed(an)
    for c, lt, nm, kind, f in list(cs.values()):
        if kind != "op":
            continue
        cls = cls_of(f)
        eqs = [g for g in P.by_short.get(cls + "::operator==", []) if g.blocks and same_type(g)]
        nes = [g for g in P.by_short.get(cls + "::operator!=", []) if g.blocks and same_type(g)]
        if last(cls) not in keys and not eqs:
            continue
        if eqs:
            g = eqs[0]
            try:
                e = Cmp(an, g)
                # evaluate both over the union of their parts
                e.leaves += [l for l in c.leaves if l not in e.leaves]
                e.preds += [p for p in c.preds if p not in e.preds]
                c2 = Cmp(an, f)
                c2.leaves, c2.preds = e.leaves, e.preds
                bad = None
                n = 0
                for asg in list(e.pairs()):
                    n += 1
                    tie = not c2.run(asg) and not c2.run(c2.swap(asg))
                    if e.run(asg) != tie:
                        bad = bad or asg
                R.ok("%s: == and < agree on %d relations" % (cls, n), g)
                if bad:
                    R.bad("%s:equal" % cls, g.loc, "%s::operator== and operator< disagree on which values are the same: %s" % (cls, e.tell(bad)), [f.loc, g.loc], g.id)
                for h in nes:
                    ne = Cmp(an, h)
                    ne.leaves += [l for l in e.leaves if l not in ne.leaves]
                    ne.preds += [p for p in e.preds if p not in ne.preds]
                    e2 = Cmp(an, g)
                    e2.leaves, e2.preds = ne.leaves, ne.preds
                    bad = next((asg for asg in list(ne.pairs()) if ne.run(asg) == e2.run(asg)), None)
                    R.check(bad is None, "!= is the opposite of ==", "%s:differ" % cls, h.loc, "%s::operator!= is not the opposite of operator==: %s" % (cls, ne.tell(bad) if bad else ""), h.id)
            except Undecided as x:
                R.bad("%s:undecided" % cls, g.loc, "%s: equality does not follow from the parts: %s" % (cls, x), [g.loc], g.id)
        else:
            fl = fields_of(P, cls)
            want = IDENT.get(last(cls)) or [n for _, n, t in fl if t in SCALAR]
            for w in want:
                ls = [k for k, l in enumerate(c.leaves) if l[0] == "f" and last(l[2]) == w]
                ok = bool(ls)
                if ok:
                    for asg, v in lt.items():
                        if not v and not lt[c.swap(asg)] and any(asg[0][k] != "=" for k in ls):
                            ok = False
                R.check(ok, "entries of %s that differ in %s are kept apart" % (cls, w), "%s:%s" % (cls, w), f.loc, "%s: two entries that differ in %s count as the same entry" % (nm, w), f.id)


SCALAR = {"unsigned long", "long", "unsigned int", "int", "unsigned short", "short", "unsigned char", "char", "bool", "unsigned long long", "long long",
          "uint64_t", "uint32_t", "off_t", "size_t", "__u64", "__u32"}


def direction(an, R, cs):
    """which comes first where the order is documented"""
    for c, lt, nm, kind, f in list(cs.values()):
        want = None
        t = last(cls_of(f))
        if kind == "op" and f.short.startswith("BeesScanModeRecent::"):
            want = [("min_transid", ">")]
        elif kind == "sort" and t == "BeesRangePair":
            want = [(("size",), ">")]
        elif kind == "sort" and t == "ExtentRef":
            want = [("m_inum", "<")]
        elif t in ("Task",) and kind == "op":
            want = [("m_id", "<")]
        elif kind == "sort" and any("TaskState::m_id" in repr(l) for l in c.leaves):
            want = [("m_id", "<")]
        if not want:
            continue
        for w, d in want:
            ls = [k for k, l in enumerate(c.leaves) if (l[0] == "f" and last(l[2]) == w) or (isinstance(w, tuple) and "second" in repr(l) and ("m_end" in repr(l) or "size" in repr(l)))]
            ok = bool(ls)
            for asg, v in lt.items():
                if ls and asg[0][ls[0]] == d and not v:
                    ok = False
            R.check(ok, "the order is by %s first" % (w,), "%s:%s" % (nm, w if isinstance(w, str) else w[0]), f.loc,
                    "%s does not put the value with the %s %s first" % (nm, {"<": "smaller", ">": "greater"}[d], w if isinstance(w, str) else w[0]), f.id)


def c23(an, R):
    R.rule("order", "every function by which values are sorted or kept in a set or map is evaluated over every relation of the parts it compares: nothing comes before itself, no two values each before the other, 'before' and 'neither before' are transitive", 10)
    cs = order(an, R)
    R.rule("identity", "two values neither of which comes before the other are equal by the class's own ==, and != is its opposite; keys without == are told apart by every identifying field", 6)
    identity(an, R, cs)
    R.rule("direction", "the documented order: most recently scanned subvols first in 'recent' mode, longest match first, references to one inode together, tasks by age", 3)
    direction(an, R, cs)

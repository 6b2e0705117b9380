"""C27 block addresses: position, kind and special values never get mixed up."""
from .common import *
from .linear import lin
from .rules_opts import subs, has
from .rules_scan import run

M = "BeesAddress::m_addr"
U64 = (1 << 64) - 1
ENCODED, LASTF, UNKNOWN, DELALLOC, UNALIGNED, INLINE, SHARED = 0x8, 0x1, 0x2, 0x4, 0x100, 0x200, 0x2000


def glob(P, name):
    return P.globals.get(name) or P.globals.get("crucible::" + name) or P.globals.get(last(name))


def ik(s):
    """integer value of a constant term"""
    if s and s[0] == "k":
        try:
            return int(s[1], 0) if isinstance(s[1], str) else int(s[1])
        except ValueError:
            return {"true": 1, "false": 0}.get(s[1])
    return None


class Fold(NameAut):
    """constant propagation through one function; state: (known values, result)"""
    expand = False

    def __init__(self, an, known, R=None, depth=0):
        super().__init__()
        self.an, self.R, self.depth = an, R, depth
        self.known = known
        self.out = set()

    def initial(self):
        return (frozenset(self.known.items()), None)

    def relevant(self, fn, i, n):
        return n["k"] == "call" and n.get("n", "").startswith("BeesAddress::")

    def enter_always(self, fn):
        return fn.name.startswith("BeesAddress::")

    def never_enter(self, fn):
        return not fn.name.startswith("BeesAddress::")

    def ignore_exc(self, ctx, n, name):
        return True

    def val(self, st, s, d=0):
        m = dict(st[0])
        if not isinstance(s, tuple) or not s or d > 40:
            return s
        if s in m:
            return m[s]
        k = s[0]
        P = self.an.P
        if k == "v":
            o = self.an.var_owner.get(s[1])
            if o and o[1] == "local" and o[0].single_def(s[1]) and o[2].get("init") is not None and o[2]["init"] >= 0:
                t = P.sym(o[0], o[2]["init"], None, 0, False)
                return self.val(st, t, d + 1) if t != s else s
            return s
        if k == "g":
            g = glob(P, s[1])
            if g and g.get("v") is not None and g["t"].startswith("const "):
                return ("k", str(g["v"]))
            return s
        if k == "not":
            v = ik(self.val(st, s[1], d + 1))
            return ("k", "0" if v else "1") if v is not None else ("not", s[1])
        if k == "c" and s[1].startswith("BeesAddress::") and self.depth < 4:
            fs = [f for f in P.by_short.get(s[1], ()) if f.blocks and len(f.params) == len(s[3])]
            me = ("f", ("this",), M)
            known = {me: m[me]} if me in m and s[2] == ("this",) else {}
            if len(fs) == 1:
                for p, x in zip(fs[0].params, s[3]):
                    x = self.val(st, x, d + 1)
                    if ik(x) is not None:
                        known[("v", p["var"])] = x
                out = outcome(self.an, self.R, fs[0], known, self.depth + 1)
                r = {x for kind, x, y in out if kind == "ret"}
                if len(r) == 1 and None not in r:
                    return ("k", str(r.pop()))
            return s
        if k == "o":
            if len(s) == 5 and s[1] == "?:":
                c = ik(self.val(st, s[2], d + 1))
                return self.val(st, s[3 if c else 4], d + 1) if c is not None else s
            a = [ik(self.val(st, x, d + 1)) for x in s[2:]]
            if s[1] in ("&&", "||") and len(a) == 2:
                if s[1] == "&&" and 0 in a:
                    return ("k", "0")
                if s[1] == "||" and any(x for x in a if x is not None):
                    return ("k", "1")
            if None in a:
                return s
            try:
                if len(a) == 1:
                    r = {"~": lambda: ~a[0], "-": lambda: -a[0], "!": lambda: int(not a[0])}[s[1]]()
                else:
                    x, y = a
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x // y, "%": lambda: x % y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                         "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
                         "<=": lambda: int(x <= y), ">=": lambda: int(x >= y), "&&": lambda: int(bool(x and y)), "||": lambda: int(bool(x or y))}[s[1]]()
            except (KeyError, ZeroDivisionError, ValueError):
                return s
            return ("k", str(r & U64 if r >= 0 else r))
        return s

    def setv(self, st, key, v):
        out = {(k, x) for k, x in st[0] if k != key}
        if ik(v) is not None:
            out.add((key, v))
        elif key[0] == "f":
            out.add((key, ("unknown",)))
        return (frozenset(out), st[1])

    def on_bind(self, st, ctx, var, typ, s):
        return [self.setv(st, ("v", var), self.val(st, s))] if s != ("none",) else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] not in ("v", "f"):
            return None
        if op == "=":
            v = self.val(st, rhs)
        elif op in ("++", "--", "p++", "p--"):
            v = self.val(st, ("o", "+" if "+" in op else "-", lhs, ("k", "1")))
        else:
            v = self.val(st, ("o", op[:-1], lhs, rhs))
        return [self.setv(st, lhs, v)]

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            t = self.val(st, s)
            v = ik(t)
            if v is not None and bool(v) != bool(p):
                return []
            if v is None and has(t, lambda x: x[0] in ("v", "this", "c", "unknown")):
                # both ways are taken: nothing is known of the result
                st = (st[0] | {(("?",), ("k", "1"))}, st[1])
        return [st]

    def on_return(self, st, ctx, n, s):
        return [(st[0], self.val(st, s))]

    def on_leave(self, st, ctx, kind):
        if not ctx.stack:
            if ("?",) in dict(st[0]):
                return None
            m = dict(st[0]).get(("f", ("this",), M))
            self.out.add((kind, ik(st[1]) if st[1] else None, ik(m) if m else None))
        return None


def rets(an, f):
    return [an.P.sym(f, f.nodes[i]["s"], None, 0, False) for i in f.live_nodes() if f.nodes[i]["k"] == "ret" and f.nodes[i].get("s") is not None and f.nodes[i]["s"] >= 0]


def outcome(an, R, f, known, depth=0):
    key = (f.name, len(f.params), frozenset(known.items()))
    memo = an.__dict__.setdefault("addr_memo", {})
    if key not in memo:
        a, e = run(an, f, lambda: Fold(an, known, R, depth), R)
        memo[key] = a.out
    return memo[key]


def split(v):
    """the alternatives of a value with conditional expressions: (value, conditions)"""
    c = next((x for x in subs(v) if x[0] == "o" and len(x) == 5 and x[1] == "?:"), None)
    if c is None:
        return [(v, frozenset())]
    out = []
    for i, p in ((3, True), (4, False)):
        for w, cs in split(repl(v, c, c[i])):
            out.append((w, cs | {(c[2], p)}))
    return out[:16]


def repl(v, a, b):
    if v == a:
        return b
    return tuple(repl(x, a, b) if isinstance(x, tuple) else x for x in v)


def c27(an, R):
    P = an.P
    names = ("c_offset_min", "c_offset_max", "c_offset_mask", "c_compressed_mask", "c_eof_mask", "c_toxic_mask", "c_all_mask")
    G = {}
    for n in names:
        g = P.globals.get("BeesAddress::" + n)
        if g and g.get("v") is not None:
            G[n] = int(g["v"])
    block = int((P.globals.get("BLOCK_SIZE_CLONE") or {}).get("v") or 4096)
    en = {k: int(v) for k, v in P.enums.get("BeesAddress::MagicValue", {}).get("e", [])}
    R.rule("layout", "the offset, compressed, end-of-file and toxic fields of an address never overlap each other, a block number, or a special value", 6)
    w = "src/bees.h"
    fields = ("c_offset_mask", "c_compressed_mask", "c_eof_mask", "c_toxic_mask")
    have = [n for n in fields if n in G]
    for i, a in enumerate(have):
        for b in have[i + 1:]:
            R.check(not G[a] & G[b], "%s and %s are apart" % (a, b), "overlap:%s:%s" % (a, b), w, "%s and %s share bits" % (a, b))
    for a in have:
        R.check(G[a] < block, "%s lies within a block" % a, "block:%s" % a, w, "%s overlaps the block number" % a)
        if "c_all_mask" in G:
            R.check(G[a] & ~G["c_all_mask"] == 0, "%s is in c_all_mask" % a, "all:%s" % a, w, "c_all_mask lacks bits of %s: a physical address keeps them" % a)
    if "c_offset_mask" in G and "c_offset_max" in G:
        R.check(all(x & ~G["c_offset_mask"] == 0 for x in range(1, G["c_offset_max"] + 1)), "every offset fits", "offset-bits", w, "an offset does not fit into its field")
        mx = (P.globals.get("BLOCK_SIZE_MAX_COMPRESSED_EXTENT") or {}).get("v")
        if mx:
            R.check(G["c_offset_max"] * block >= int(mx), "every block of a compressed extent has an offset", "offset-max", w, "the last blocks of a compressed extent have no offset")
    if "c_offset_min" in G:
        R.check(G["c_offset_min"] >= 1, "offset 0 means none", "offset-min", w, "the first block of a compressed extent looks as if it had no offset")
    if "LAST" in en:
        R.check(max(en.values()) == en["LAST"] <= block and len(set(en.values())) == len(en), "special values lie below the first block", "magic", w, "a special value can be taken for a block address")
    if len(have) < 4 or "LAST" not in en:
        R.ok("the layout is not given by the named constants: not judged")
        for i in range(6):
            R.ok("-")
        return []

    R.rule("decode", "each accessor looks at its own field of a real address, and at none of a special value", 20)
    A = 0x123456000
    vals = list(range(en["LAST"]))
    for c in (0, G["c_compressed_mask"]):
        for e in (0, G["c_eof_mask"]):
            for t in (0, G["c_toxic_mask"]):
                for o in (0, 1, 7, G["c_offset_max"]):
                    vals.append(A | c | e | t | o)
    mag = lambda v: v < en["LAST"]
    want = {
        "is_compressed": lambda v: not mag(v) and bool(v & G["c_compressed_mask"]),
        "has_compressed_offset": lambda v: not mag(v) and bool(v & G["c_compressed_mask"]) and bool(v & G["c_offset_mask"]),
        "is_toxic": lambda v: not mag(v) and bool(v & G["c_toxic_mask"]),
        "is_unaligned_eof": lambda v: not mag(v) and bool(v & G["c_eof_mask"]),
        "is_magic": mag,
    }
    key = ("f", ("this",), M)
    for nm, fn in sorted(want.items()):
        for f in [x for x in P.by_short.get("BeesAddress::" + nm, []) if x.blocks]:
            bad = None
            for v in vals:
                for kind, r, m in outcome(an, R, f, {key: ("k", str(v))}):
                    if kind == "ret" and r is not None and bool(r) != fn(v):
                        bad = bad or v
                    if kind == "exc" or r is None:
                        continue
            R.check(bad is None, "%s" % nm, "wrong:%s" % nm, an.where(f), "%s is wrong for the address %s" % (nm, hex(bad or 0)), f)
            for i in range(3):
                R.ok("%s: classes of addresses" % nm, f)
    for nm, fn in (("get_physical_or_zero", lambda v: 0 if mag(v) else A), ("get_compressed_offset", lambda v: ((v & G["c_offset_mask"]) - 1) * block if want["has_compressed_offset"](v) else "exc")):
        for f in [x for x in P.by_short.get("BeesAddress::" + nm, []) if x.blocks]:
            bad = None
            for v in vals:
                x = fn(v)
                for kind, r, m in outcome(an, R, f, {key: ("k", str(v))}):
                    if kind == "ret" and (x == "exc" or r is not None and r != x):
                        bad = bad if bad is not None else v
                    if kind == "exc" and x != "exc" and False:
                        bad = v
            R.check(bad is None, nm, "wrong:%s" % nm, an.where(f), "%s is wrong for the address %s" % (nm, hex(bad or 0)), f)
    for f in [x for x in P.by_short.get("BeesAddress::set_toxic", []) if x.blocks]:
        bad = None
        for v in vals:
            for kind, r, m in outcome(an, R, f, {key: ("k", str(v))}):
                if kind == "ret" and (mag(v) or m is not None and m != v | G["c_toxic_mask"]):
                    bad = bad if bad is not None else v
        R.check(bad is None, "set_toxic", "wrong:set_toxic", an.where(f), "set_toxic is wrong for the address %s" % hex(bad or 0), f)

    R.rule("special", "an extent without usable data on disk gets a special value: a hole, delayed allocation, or unusable for every flag not known to be harmless", 8)
    hole = glob(P, "Extent::HOLE")
    for f in [x for x in P.by_short.get("BeesAddress::magic_check", []) if x.blocks]:
        par = ("v", f.params[0]["var"])
        cases = [(0, None), (ENCODED, None), (LASTF, None), (SHARED, None), (ENCODED | LASTF | SHARED, None),
                 (DELALLOC, "DELALLOC"), (UNKNOWN, "DELALLOC"), (UNKNOWN | DELALLOC | LASTF, "DELALLOC"), (INLINE, "UNUSABLE"), (UNALIGNED, "UNUSABLE"), (UNALIGNED | INLINE | LASTF, "UNUSABLE"),
                 (DELALLOC | INLINE, "UNUSABLE")]
        hv = int(hole["v"]) if hole and hole.get("v") is not None else None
        if hv:
            cases.append((hv, "HOLE"))
            cases.append((hv | LASTF, "HOLE"))
        for b in range(64):
            x = 1 << b
            if x not in (ENCODED, LASTF, UNKNOWN, DELALLOC, UNALIGNED, INLINE, SHARED) and (not hv or not x & hv) and b < 32:
                cases.append((x, "UNUSABLE"))
        for fl, ex in cases:
            why = None
            for kind, r, m in outcome(an, R, f, {par: ("k", str(fl)), key: ("k", "0")}):
                if kind != "ret" or r is None:
                    continue
                if ex is None and r:
                    why = "an ordinary extent is not used"
                elif ex is not None and not r:
                    why = "the extent is used like an ordinary one, not taken for %s" % ex
                elif ex is not None and m is not None and m != en.get(ex):
                    why = "the extent is not taken for %s" % ex
            R.check(why is None, "flags %s" % hex(fl), "flags:%s" % hex(fl), an.where(f), "extent flags %s: %s" % (hex(fl), why), f)
    encode(an, R, G, block, en)
    return []


class Enc(NameAut):
    """the constructor from an extent; state: (values, facts, magic handled)"""
    expand = False

    def __init__(self, an, G):
        super().__init__()
        self.an, self.G = an, G
        self.done = []

    def initial(self):
        return (frozenset(), frozenset())

    def relevant(self, fn, i, n):
        return n["k"] == "call" and n.get("n", "").startswith("BeesAddress::")

    def never_enter(self, fn):
        return True

    def ignore_exc(self, ctx, n, name):
        return True

    def val(self, st, s, d=0):
        m = dict(st[0])
        if not isinstance(s, tuple) or not s or d > 30:
            return s
        if s in m:
            return m[s]
        if s[0] == "g":
            g = glob(self.an.P, s[1])
            if g and g.get("v") is not None and g["t"].startswith("const "):
                return ("k", str(g["v"]))
            return s
        return tuple(self.val(st, x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in s)

    def put(self, st, key, v):
        if sum(1 for _ in subs(v)) > 60:
            v = ("unknown",)
        return (frozenset((k, x) for k, x in st[0] if k != key) | {(key, v)}, st[1])

    def on_init(self, st, ctx, e, s):
        if e.get("fd") == M:
            return [self.put(st, ("f", ("this",), M), self.val(st, s))]
        return None

    def on_bind(self, st, ctx, var, typ, s):
        return [self.put(st, ("v", var), self.val(st, s))] if s != ("none",) else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] not in ("v", "f"):
            return None
        v = self.val(st, rhs) if op == "=" else self.val(st, ("o", op[:-1], lhs, rhs)) if op.endswith("=") else ("unknown",)
        return [self.put(st, lhs, v)]

    def on_branch(self, st, ctx, facts):
        new = set()
        for s, p in facts:
            v = self.val(st, s)
            while v[0] == "not":
                v, p = v[1], not p
            k = ik(v)
            if k is not None:
                if bool(k) != bool(p):
                    return []
                continue
            if (v, not p) in st[1]:
                return []
            if has(v, lambda x: x[0] in ("c", "v")):
                new.add((v, p))
        return [(st[0], st[1] | frozenset(x for x in new if sum(1 for _ in subs(x[0])) < 40))] if new - st[1] else None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret":
            self.done.append((dict(st[0]).get(("f", ("this",), M)), st[1]))
        return None


def ors(s):
    if s[0] == "o" and s[1] == "|" and len(s) == 4:
        return ors(s[2]) + ors(s[3])
    return [s]


def encode(an, R, G, block, en):
    P = an.P
    R.rule("encode", "an address made from an extent names the very block asked for: the physical block itself, or extent and block offset if compressed", 2)
    fs = [f for f in P.by_short.get("BeesAddress::BeesAddress", []) if f.blocks and len(f.params) == 2 and "Extent" in f.params[0]["t"]]
    for f in fs:
        e, off = ("v", f.params[0]["var"]), ("v", f.params[1]["var"])
        get = lambda nm: (lambda x: x[0] == "c" and last(x[1]) == nm and x[2] == e or x[0] == "f" and last(x[2]) == "m_" + nm and x[1] == e)
        a, en_ = run(an, f, lambda: Enc(an, G), R)
        w = an.where(f)
        seen = set()
        for v, facts in [(w, fa | c) for v, fa in a.done if v is not None for w, c in split(v)]:
            if has(v, lambda x: x[0] == "unknown") or any((s, not p) in facts for s, p in facts):
                continue
            magic = [p for s, p in facts if s[0] == "c" and last(s[1]) == "magic_check"]
            if magic and magic[0]:
                # the special value was stored by magic_check
                R.check(ik(v) is not None and ik(v) < en["LAST"] or v[0] == "unknown", "a special value stays", "special-lost", w, "the special value found for the extent is replaced", f)
                continue
            if not magic and (ik(v) == en.get("ZERO", 0) or any(s[0] == "c" and s[2] == ("this",) for s, p in facts) or not P.by_short.get("BeesAddress::magic_check")):
                continue
            if not magic:
                R.bad("unchecked", w, "an extent is used without looking at its flags", fn=f)
                continue
            def bit(flag):
                r = None
                for s, p in facts:
                    if s[0] == "o" and s[1] == "&" and has(s, get("flags")) and flag in (ik(s[2]), ik(s[3])):
                        r = p
                    if s[0] == "o" and s[1] == "==" and any(ik(x) == 0 for x in s[2:]) and has(s, lambda y: y[0] == "o" and y[1] == "&" and has(y, get("flags")) and flag in (ik(y[2]), ik(y[3]))):
                        r = not p
                return r
            enc = bit(ENCODED)
            ts = ors(v)
            flags = 0
            rest = []
            for t in ts:
                k = ik(t)
                if k is not None:
                    flags |= k
                else:
                    rest.append(t)
            if flags & G["c_eof_mask"]:
                R.check(bit(LASTF) is True, "the end-of-file mark", "eof", w, "an extent that is not the last of its file gets the end-of-file mark", f)
            if flags & G["c_toxic_mask"]:
                R.bad("toxic", w, "a fresh address is marked toxic", fn=f)
            if any(has(t, lambda x: x[0] == "c" and x[2] != e) for t in rest):
                # made by a helper
                continue
            if enc is None:
                R.bad("encoded-unknown", w, "an address is made without looking whether the extent is compressed", fn=f)
            elif not enc:
                seen.add("plain")
                R.check(not flags & (G["c_compressed_mask"] | G["c_offset_mask"]), "no compressed mark", "plain-mark", w, "an extent that is not compressed gets a mark of compressed ones", f)
                if len(rest) == 1:
                    l = {k: c for k, c in lin(rest[0]).items() if c}
                    ph = sum(c for k, c in l.items() if k != 1 and get("physical")(k))
                    bg = sum(c for k, c in l.items() if k != 1 and get("begin")(k))
                    of = l.get(off, 0)
                    R.check(ph == 1 and bg == -1 and of == 1 and len(l) == 3, "the physical block", "plain", w, "the address of an uncompressed block is not its extent's address plus its distance from the start", f)
            else:
                seen.add("compressed")
                R.check(flags & G["c_compressed_mask"] == G["c_compressed_mask"], "the compressed mark", "mark", w, "a compressed extent is not marked as compressed", f)
                phs = [t for t in rest if get("physical")(t)]
                oth = [t for t in rest if not get("physical")(t)]
                R.check(len(phs) == 1 or not rest, "the physical extent", "extent", w, "the address of a compressed block does not name its extent", f)
                if not oth:
                    R.bad("no-offset", w, "blocks of one compressed extent get the same address", fn=f)
                for t in oth[:1]:
                    l = {k: c for k, c in lin(t).items() if c}
                    div = [k for k in l if k != 1 and k[0] == "o" and k[1] in ("/", ">>")]
                    if len(div) != 1 or len(oth) != 1:
                        continue
                    dv = ik(div[0][3])
                    if div[0][1] == ">>" and dv is not None:
                        dv = 1 << dv
                    x = {k: c for k, c in lin(div[0][2]).items() if c}
                    ok = l.get(div[0]) == 1 and l.get(1, 0) == G["c_offset_min"] and dv == block and len(l) == 2
                    R.check(ok, "the offset counts blocks from one", "offset-unit", w, "the offset within a compressed extent is not counted in blocks from one", f)
                    eo = sum(c for k, c in x.items() if k != 1 and get("offset")(k))
                    bg = sum(c for k, c in x.items() if k != 1 and get("begin")(k))
                    R.check(eo == 1 and bg == -1 and x.get(off) == 1 and len(x) == 3, "the offset of the block", "offset", w, "the offset of a compressed block is not its distance from the start of the extent", f)
                    # within the field
                    top = G["c_offset_max"]
                    lim = None
                    for s, p in facts:
                        if s[0] == "o" and s[1] == "<":
                            for z, sc in ((t, 1), (div[0][2], block)):
                                if s[2] == z and p and ik(s[3]) is not None:
                                    u = ik(s[3]) - 1
                                elif s[3] == z and not p and ik(s[2]) is not None:
                                    u = ik(s[2])
                                else:
                                    continue
                                u = u if sc == 1 else u // block + 1
                                lim = u if lim is None else min(lim, u)
                        if s[0] == "o" and s[1] == "==" and p and any(ik(y) == 0 for y in s[2:]) and has(s, lambda y: y == t):
                            lim = min(lim, G["c_offset_mask"]) if lim is not None else G["c_offset_mask"]
                    R.check(lim is not None and lim <= G["c_offset_mask"], "the offset fits", "offset-range", w, "an offset too large for its field runs into the other fields", f)
        if not seen and a.done:
            R.ok("the address is made elsewhere: not judged", f)
            R.ok("-", f)
    if not fs:
        R.bad("no-ctor", "src/bees-types.cc", "no address can be made from an extent")

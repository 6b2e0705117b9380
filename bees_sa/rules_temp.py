"""C15 temporary copies are exact."""
from .common import *
from .linear import ValAut, sub, add, fz, mentions
from .rules_dedupe import key_fn
from .rules_scan import run, report_all
from .rules_save import is_field, noise, peelb
from .rules_crawl import peel1

END_F = "BeesTempFile::m_end_offset"
E0 = ("aligned end of file",)
WRITES = ("pwrite_or_die", "pwrite", "pwrite64", "write", "write_or_die")
BLK = "BeesBlockData"


class Fresh(ValAut):
    """make_copy, make_hole: the range handed out is freshly extended, block
    aligned space, and (copy) is filled with the source's bytes"""
    names = ("BeesTempFile::resize", "BeesBlockData::is_data_zero", "*::pwrite_or_die", "*::write_or_die", "pwrite", "write")
    fields = ("m_end_offset",)
    tracked = (END_F,)

    def __init__(self, an, fn):
        super().__init__()
        self.an = an
        self.copy = any(p["t"].replace("const ", "").startswith("BeesFileRange") for p in fn.params)
        p = fn.params[0]
        self.src = ("v", p["var"])
        self.n = 0

    def never_enter(self, fn):
        return noise(fn) or fn.short == "BeesTempFile::resize" or fn.cls != "BeesTempFile" and not fn.file.endswith("src/bees.cc")

    def ignore_exc(self, ctx, n, name):
        return True

    # the length asked for
    def wanted(self, st):
        if not self.copy:
            return [self.val(st, self.src)]
        b, e = self.srcf("begin"), self.srcf("end")
        return [frozenset({(self.srcf("size"), 1)}), frozenset({(e, 1), (b, -1)})]

    def srcf(self, m):
        return ("c", "BeesFileRange::" + m, self.src, ())

    def cur_end(self, st):
        return self.val(st, ("f", ("this",), END_F))

    def on_branch(self, st, ctx, facts):
        out = st
        for s, p in facts:
            neg = False
            x = s
            while x[0] == "not":
                x, neg = x[1], not neg
            v = p != neg
            if x[0] == "v":
                x = self.one(out, x) or x
            e = eq_sides(x)
            y = None
            if e and any(konst(z) == 0 for z in e):
                y = [z for z in e if konst(z) != 0]
                y, v = (y[0], not v) if y else (None, v)
            else:
                y = x
            if y is not None and y[0] == "o" and y[1] in ("&", "%") and len(y) == 4 and not v:
                lhs, m = y[2], self.an.kval(y[3])
                if self.an.kval(lhs) is not None:
                    lhs, m = y[3], self.an.kval(y[2])
                ok = m == 4095 if y[1] == "&" else m == 4096
                if ok and self.val(out, lhs) == self.cur_end(out) and ("al",) not in out[1]:
                    out = self.put(out, ("f", ("this",), END_F), frozenset({(E0, 1)}))
                    out = self.extra(out, out[1] | {("al",)})
            if x[0] == "c" and last(x[1]) == "is_data_zero" and v:
                b = self.one(out, x[2]) if x[2] is not None else None
                if b and b[0] == "ctor" and b[1] == BLK and len(b[2]) == 3:
                    out = self.extra(out, out[1] | {("done", b[2][1], b[2][2])})
            if x[0] == "o" and x[1] == "<" and not v:
                # not (lhs < rhs): the loop is finished
                d = fz(sub(self.val(out, x[3]), self.val(out, x[2])))
                if d in self.wanted(out) and any(self.stepped(ctx, z) for z in x[2:4]):
                    out = self.extra(out, out[1] | {("all",)})
            if e and v and x[0] == "o" and x[1] == "==":
                d = fz(sub(self.val(out, e[0]), self.val(out, e[1])))
                d2 = fz(sub(self.val(out, e[1]), self.val(out, e[0])))
                if (d in self.wanted(out) or d2 in self.wanted(out)) and any(self.stepped(ctx, z) for z in e):
                    out = self.extra(out, out[1] | {("all",)})
        return [out] if out != st else None

    def stepped(self, ctx, s):
        return s[0] == "v" and s[1] in self.group(ctx.fn) or any(self.stepped(ctx, x) for x in s if isinstance(x, tuple) and x and isinstance(x[0], str))

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if name == "BeesTempFile::resize":
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            v = self.val(st, args[0])
            k = self.an.kval(args[0])
            if k is not None:
                if k <= 0 or k % 4096:
                    self.report(ctx, "unaligned-reset", "the temporary file is emptied to a size that is not a whole number of blocks")
                st = self.put(st, ("f", ("this",), END_F), frozenset({(E0, 1)}))
                return [self.extra(st, st[1] | {("al",)})]
            e = self.cur_end(st)
            if ("al",) not in st[1]:
                self.report(ctx, "unaligned", "space is handed out from a temporary file whose end is not known to be block aligned")
            d = fz(sub(v, e))
            if e != frozenset({(E0, 1)}) or not any(d == w for w in self.wanted(st)):
                self.report(ctx, "extension", "the temporary file is not extended by exactly the length asked for")
            st = self.put(st, ("f", ("this",), END_F), v)
            return [self.extra(st, st[1] | {("ext",)})]
        if l in WRITES and not ctx.fn.is_noise(ctx.node) and ctx.fn.cls == "BeesTempFile" or l == "pwrite_or_die" and args and not ctx.fn.is_noise(ctx.node):
            return self.write(st, ctx, l, args)
        return None

    def write(self, st, ctx, l, args):
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        bad = lambda k, m: self.report(ctx, k, m)
        if l != "pwrite_or_die":
            bad("unchecked", "data is copied to a temporary file by a call whose result is not checked for completeness")
            return None
        if ("ext",) not in st[1]:
            bad("order", "data is written to the temporary file before it was extended")
        a = [self.one(st, x) for x in args]
        data = a[1]
        while data and data[0] == "c" and data[2] is not None and last(data[1]) in ("data", "get", "begin") and not (data[1].startswith(BLK + "::")):
            data = data[2]
        if not (data and data[0] == "c" and data[1] == BLK + "::data" and data[2][0] == "ctor" and len(data[2][2]) == 3):
            bad("data", "what is written to the temporary file is not the unchanged content of a block that was read")
            return None
        F, O, L = data[2][2]
        form = self.form
        if len(args) >= 4 and self.val(st, args[2]) != form(L):
            bad("length", "the length written to the temporary file differs from the length read")
        off = self.val(st, args[-1])
        src = self.srcf("begin")
        if fz(sub(off, form(O))) != fz({E0: 1, src: -1}):
            bad("place", "a block is written at another relative position than it was read from")
        if not (peelb(args[0])[0] == "f" and last(peelb(args[0])[2]) == "m_fd"):
            bad("target", "the copy is written to something else than the temporary file")
        if not (F[0] == "c" and F == self.srcf("fd")):
            bad("source", "the copied data is not read from the source range's file")
        return [self.extra(st, st[1] | {("done", O, L)})]

    def on_advance(self, st, ctx, d, minus):
        form = self.form
        if not self.copy:
            return None
        self.n += 1
        if not any(t[0] == "done" and form(t[2]) in (d, minus) and form(t[1]) == frozenset({(self.srcf("begin"), 1)}) for t in st[1]):
            self.report(ctx, "skipped", "part of the source is passed over without having been copied or found to be zero")
        return [self.extra(st, {t for t in st[1] if t[0] != "done"})]

    def on_return(self, st, ctx, n, s):
        if ctx.stack or s[0] == "none":
            return None
        v = self.one(st, s)
        if ("ext",) not in st[1]:
            self.report(ctx, "no-space", "a range of the temporary file is handed out without extending the file")
            return None
        if self.copy and ("all",) not in st[1]:
            self.report(ctx, "incomplete", "a copy is handed out that may not be complete")
        ok = v and v[0] == "ctor" and v[1] == "BeesFileRange" and len(v[2]) == 3
        if ok:
            form = self.form
            b, e = form(v[2][1]), form(v[2][2])
            ok = is_field(v[2][0], "BeesTempFile::m_fd") and b == frozenset({(E0, 1)}) and fz(sub(e, b)) in self.wanted(st)
        if not ok:
            self.report(ctx, "range", "the range handed out is not the freshly extended part of the temporary file")
        return None


class Extend(ValAut):
    """m_end_offset is set to a size only after the file was given that size"""
    names = ("ftruncate", "ftruncate64", "*::ftruncate_or_die")
    fields = ("m_end_offset",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.sets = 0

    def never_enter(self, fn):
        return noise(fn)

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) in ("ftruncate", "ftruncate64", "ftruncate_or_die") and len(args) == 2:
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not is_field(peelb(args[0]), "BeesTempFile::m_fd"):
                self.report(ctx, "target", "something else than the temporary file is resized")
        return None

    def checked(self, f, i):
        """the call's result goes into a checking function"""
        cur = i
        for _ in range(8):
            p = f.parents.get(cur)
            if p is None or p[0] < 0:
                return False
            pn = f.nodes[p[0]]
            if pn["k"] == "call":
                return last(short(pn.get("n", ""))) in ("die_if_non_zero", "die_if_minus_one", "die_if_negative", "die_if_neg")
            if pn["k"] not in ("cast", "ctor"):
                return False
            cur = p[0]
        return False

    def after_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l in ("ftruncate", "ftruncate64", "ftruncate_or_die") and len(args) == 2:
            v = self.val(st, args[1])
            return [self.extra(st, {t for t in st[1] if t[0] not in ("size", "maybe")} | {("size" if l == "ftruncate_or_die" or self.checked(ctx.fn, ctx.node) else "maybe", v)})]
        return None

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            x, v = s, p
            while x[0] == "not":
                x, v = x[1], not v
            e = eq_sides(x)
            iscall = lambda z: z[0] == "c" and last(z[1]) in ("ftruncate", "ftruncate64") or self.one(st, z) is not None and self.one(st, z)[0] == "c" and last(self.one(st, z)[1]) in ("ftruncate", "ftruncate64")
            good = e and v and any(konst(z) == 0 for z in e) and any(iscall(z) for z in e) or iscall(x) and not v or x[0] == "o" and x[1] == "<" and not v and konst(x[3]) == 0 and iscall(x[2])
            if good:
                return [self.extra(st, {("size", t[1]) if t[0] == "maybe" else t for t in st[1]})]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if is_field(lhs, END_F):
            self.sets += 1
            v = self.val(st, rhs)
            if op != "=" or ("size", v) not in st[1]:
                self.report(ctx, "unset", "the recorded end of the temporary file is changed to a size the file was not successfully given")
            return [self.extra(st, st[1] | {("recorded", v)})]
        return super().on_assign(st, ctx, n, lhs, rhs, op)

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret":
            sz = [t[1] for t in st[1] if t[0] == "size"]
            if not sz:
                self.report(ctx, "no-resize", "the temporary file is left without its new size being confirmed")
            elif ("recorded", sz[0]) not in st[1]:
                self.report(ctx, "forgotten", "the new end of the temporary file is not recorded")
        return None


class BlockRead(ValAut):
    """a block's data is what was read from its own place, completely"""
    names = ("*::pread_or_die",)
    fields = ("m_data",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def never_enter(self, fn):
        return noise(fn)

    def whole(self, st, v):
        """value: a buffer exactly as long as the block"""
        return v and v[0] == "ctor" and len(v[2]) == 1 and (is_field(v[2][0], "BeesBlockData::m_length") or v[2][0][0] == "c" and v[2][0][1] == "BeesBlockData::size")

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) != "pread_or_die":
            return None
        self.n += 1
        self.instances.add((ctx.fn.id, ctx.node))
        fd, off = args[0], args[-1]
        if not is_field(peelb(fd), "BeesBlockData::m_fd") or self.val(st, off) != frozenset({(("f", ("this",), "BeesBlockData::m_offset"), 1)}):
            self.report(ctx, "place", "a block's data is read from another place than the block's own")
        b = args[1]
        while b[0] == "c" and b[2] is not None and last(b[1]) in ("data", "get", "begin"):
            b = b[2]
        if not self.whole(st, self.one(st, b)):
            self.report(ctx, "size", "a block's data is read into a buffer that is not as long as the block")
        if len(args) == 4:
            l = self.one(st, args[2])
            if not (l and (is_field(l, "BeesBlockData::m_length") or l[0] == "c" and last(l[1]) == "size")):
                self.report(ctx, "length", "less than the whole block is read")
        return [self.extra(st, st[1] | {("read", b)})]

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if is_field(lhs, "BeesBlockData::m_data"):
            r = peel1(rhs)
            if ("read", r) not in st[1] and not is_field(r, "BeesBlockData::m_data"):
                v = self.one(st, r)
                if not self.whole(st, v):
                    self.report(ctx, "unread", "a block's data is set to something that was not read from the file")
                else:
                    return [self.extra(st, st[1] | {("pending",)})]
            return None
        return super().on_assign(st, ctx, n, lhs, rhs, op)

    def on_return(self, st, ctx, n, s):
        if not ctx.stack and ("pending",) in st[1] and not any(t[0] == "read" for t in st[1]):
            self.report(ctx, "unread", "a block's data is handed out before it was read")
        return None


class AllZero(NameAut):
    """true only after every byte was found to be zero"""
    names = ("BeesBlockData::data",)
    ALG = {"all_of": True, "none_of": False, "any_of": None}

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return True

    def ignore_exc(self, ctx, n, name):
        return True

    def relevant(self, fn, i, n):
        return True

    def data(self, s):
        return has(s, lambda x: x[0] == "c" and x[1] == "BeesBlockData::data" and x[2] == ("this",) or is_field(x, "BeesBlockData::m_data") and x[1] == ("this",))

    def bound(self, s, which):
        if s[0] == "c" and last(s[1]) in (which, "c" + which) and s[2] is not None and self.data(s[2]):
            return True
        if s[0] == "v" and "__" + which in s[1]:
            return any(self.data(t) for t in self.an.roots(s)) or True
        return False

    def on_branch(self, st, ctx, facts):
        out = set(st)
        for s, p in facts:
            x, v = s, p
            while x[0] == "not":
                x, v = x[1], not v
            e = eq_sides(x)
            if e and any(self.bound(z, "end") for z in e):
                if v:
                    out.add("end")
                else:
                    if "elem" in out:
                        self.report(ctx, "unchecked", "a byte is passed over without being compared with zero")
                    out.add("elem")
            elif e and any(konst(z) == 0 for z in e):
                if v:
                    out.discard("elem")
                else:
                    out.add("nonzero")
                self.n += 1
            elif x[0] in ("v", "c", "i", "f") and not self.bound(x, "begin") and not v:
                out.discard("elem")
                self.n += 1
            elif x[0] == "c" and last(x[1]) in self.ALG and self.alg(x):
                self.n += 1
                if v == self.ALG[last(x[1])]:
                    out |= {"end"}
                    out.discard("elem")
        return [frozenset(out)] if out != st else None

    def alg(self, x):
        lams = [a[1] for a in x[3] if a[0] == "lam"]
        if len(x[3]) != 3 or not self.bound(x[3][0], "begin") or not self.bound(x[3][1], "end") or not lams:
            return False
        lf = self.an.P.fns.get(lams[0])
        if lf is None:
            return False
        pv = ("v", lf.params[0]["var"]) if lf.params else None
        for m in lf.nodes:
            if m and m["k"] == "ret":
                s = self.an.P.sym(lf, m["s"])
                neg = False
                while s[0] == "not":
                    s, neg = s[1], not neg
                e = eq_sides(s)
                iszero = not neg if e and any(konst(z) == 0 for z in e) and pv in e else neg if s == pv else None
                if iszero is None or iszero != (last(x[1]) == "all_of"):
                    return False
        return True

    def on_return(self, st, ctx, n, s):
        if ctx.stack or konst(s) == 0:
            return None
        neg = s[0] == "not"
        x = s[1] if neg else s
        if x[0] == "c" and last(x[1]) in self.ALG and self.alg(x):
            self.n += 1
            if neg == (last(x[1]) == "any_of"):
                return None
        if "end" not in st or "elem" in st or "nonzero" in st:
            self.report(ctx, "not-all", "a block can be called zero without every byte having been found to be zero")
        return None


class Held(NameAut):
    """a temporary file stays checked out until the dedupe from it is finished"""
    expand = False
    names = ("BeesContext::tmpfile", "BeesTempFile::make_copy", "BeesTempFile::make_hole", "BeesContext::dedup", "BeesTempFile::reset", "BeesContext::dup_extent", "BeesResolver::replace_src", "BeesResolver::replace_dst")
    USE = ("BeesContext::dedup", "BeesResolver::replace_src", "BeesResolver::replace_dst")

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0
        self.uses = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return noise(fn) or fn.short in self.USE or fn.cls in ("BeesTempFile", "BeesResolver", "Pool")

    def holder(self, s):
        while s and s[0] == "c" and s[2] is not None and last(s[1]) in ("operator->", "operator*", "get"):
            s = s[2]
        return s

    def on_bind(self, st, ctx, var, typ, s):
        v = ("v", var)
        s = self.holder(peel1(s))
        out = frozenset(t for t in st if t[1:2] != (v,))
        if s[0] == "c" and last(s[1]) == "tmpfile" or ("tmp", s) in st:
            out = out | {("tmp", v)}
        return [out] if out != st else None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        return self.lost(st, lhs)

    def lost(self, st, s):
        if ("tmp", s) not in st:
            return None
        others = [t for t in st if t[0] == "tmp" and t[1] != s]
        out = st - {("tmp", s)}
        if ("made", s) in out and not others:
            out = out - {("made", s)} | {("dead",)}
        return [out]

    def on_dtor(self, st, ctx, e, s):
        if s[0] == "tmp":
            s = ctx.sym(e["tmp"])
        return self.lost(st, s)

    def on_call(self, st, ctx, n, name, recv, args):
        if name in ("BeesTempFile::make_copy", "BeesTempFile::make_hole"):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            h = self.holder(recv)
            if h[0] == "c" and last(h[1]) == "tmpfile":
                # only the temporary object holds it
                return [st - {("dead",)} | {("made", h), ("tmp", h)}]
            if ("tmp", h) in st:
                return [st - {("dead",)} | {("made", h)}]
            return None
        if last(name) in ("reset", "operator="):
            h = self.holder(recv) if recv is not None else None
            if h is not None and ("tmp", h) in st:
                if name == "BeesTempFile::reset":
                    return [st - {("made", h)} | {("dead",)}] if ("made", h) in st else None
                return self.lost(st, h)
        if name in self.USE and args:
            x = self.an.P.sym(ctx.fn, n["a"][0], ctx.env)
            src = lambda y: y[0] == "c" and y[1] in ("BeesTempFile::make_copy", "BeesTempFile::make_hole", "BeesContext::dup_extent")
            mine = has(x, src) or any(has(y, src) for y in self.an.roots(x))
            if not mine:
                return None
            self.uses += 1
            if ("dead",) not in st:
                return [frozenset(t for t in st if t[0] != "made")]
            self.report(ctx, "returned", "the temporary file is given back before the dedupe from it")
        return None


class PoolOut(NameAut):
    """an object handed out is no longer in the pool"""
    names = ("*::front", "*::back", "*::pop_front", "*::pop_back", "*::erase", "*::splice", "*::begin")
    fields = ("m_list",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return True

    def onlist(self, s):
        return has(s, lambda x: x[0] == "f" and last(x[2]) == "m_list")

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if recv is None or not self.onlist(recv):
            return None
        if l in ("front", "back", "begin"):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {l}]
        if l in ("pop_front", "pop_back"):
            want = "front" if l == "pop_front" else "back"
            if (want not in st and "begin" not in st) and st & {"front", "back"}:
                self.report(ctx, "wrong-end", "another object than the one handed out is taken off the pool's list")
            return [st - {"front", "back", "begin"}]
        if l == "erase":
            return [st - {"front", "back", "begin"}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret" and st & {"front", "back", "begin"}:
            self.report(ctx, "kept", "an object handed out stays in the pool and can be handed out twice")
        return None


class PoolIn(NameAut):
    """an object is put back only after it was made ready"""
    names = ("*::push_front", "*::push_back", "*::emplace_front", "*::emplace_back", "*::insert", "*::operator()")
    fields = ("m_list",)

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.n = 0

    def initial(self):
        return frozenset()

    def never_enter(self, fn):
        return True

    def fnobj(self, s):
        s = peel1(s)
        return has(s, lambda x: x[0] == "f" and last(x[2]) == "m_checkin")

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            x, v = s, p
            while x[0] == "not":
                x, v = x[1], not v
            if self.fnobj(x) and not v:
                return [st | {"ready"}]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        l = last(name)
        if l == "operator()" and recv is not None and self.fnobj(recv):
            if "in" in st:
                self.report(ctx, "late", "an object is made ready for reuse after it was put back into the pool")
            return [st | {"ready"}]
        if recv is not None and has(recv, lambda x: x[0] == "f" and last(x[2]) == "m_list") and l in ("push_front", "push_back", "emplace_front", "emplace_back", "insert"):
            self.n += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if "ready" not in st:
                self.report(ctx, "unready", "an object is put back into the pool without being made ready for reuse")
            if "in" in st:
                self.report(ctx, "twice", "an object is put into the pool twice")
            return [st | {"in"}]
        return None


def c15(an, R):
    P = an.P
    R.rule("fresh", "copies and holes fill exactly a fresh, aligned extension of the temporary file with the source's bytes", 4)
    made = [f for n in ("make_hole", "make_copy") for f in P.fn("BeesTempFile::" + n)]
    if len(made) != 2 or any(not f.params for f in made):
        raise AnalysisBroken("make_copy and make_hole were not found")
    for f in made:
        a, e = run(an, f, lambda: Fresh(an, f), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n >= (3 if a.copy else 1), "%s" % f.short, "%s:none" % f.short, an.where(f), "space of the temporary file is handed out without extending it", f)
            for x in a.instances:
                R.ok("site %s:%s" % x, f)
    users = {}
    for f, i, m in an.sites({"BeesTempFile::resize"}):
        users[f.id] = f
        ok = f in made or an.kval(P.sym(f, m["a"][0])) not in (None, 0)
        R.check(ok, "resized by %s" % f.short, "%s:resize" % f.short, an.where(f, i), "the temporary file is resized outside of the functions that extend or empty it", f)
    for f, i, m in an.sites({"BeesTempFile::reset"}):
        ok = f.cls == "BeesTempFile" or in_checkin(an, f)
        R.check(ok, "emptied by %s" % f.short, "%s:reset" % f.short, an.where(f, i), "the temporary file is emptied while it may be in use", f)
    R.rule("extend", "the recorded end of the temporary file is the size it was successfully given", 2)
    for f in P.fn("BeesTempFile::resize"):
        a, e = run(an, f, lambda: Extend(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n and a.sets, "size recorded", "%s:none" % f.short, an.where(f), "the temporary file's size is not recorded", f)
    for f, r, kind, i in an.field_writes.get(END_F, ()):
        if kind != "init" and f.short != "BeesTempFile::resize":
            R.bad("%s:end" % f.short, an.where(f, i), "the recorded end of the temporary file is changed outside resize", [], f)
        else:
            R.ok("end offset written in %s" % f.short, f)
    R.rule("block", "a block's data is all of it, read from its own place; zero means every byte was compared", 3)
    for f in P.fn("BeesBlockData::data"):
        a, e = run(an, f, lambda: BlockRead(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n > 0, "block data read", "%s:none" % f.short, an.where(f), "a block's data is never read", f)
    for F in ("m_data", "m_offset", "m_length", "m_fd"):
        for f, r, kind, i in an.field_writes.get("BeesBlockData::" + F, ()):
            ok = kind == "init" or f.short.endswith("operator=") or F == "m_data" and f.short == "BeesBlockData::data"
            R.check(ok, "%s written in %s" % (F, f.short), "%s:%s" % (f.short, F), an.where(f, i), "a block's place or content is changed after it was made", f)
    for f in P.fn("BeesBlockData::is_data_zero"):
        a, e = run(an, f, lambda: AllZero(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.check(a.n > 0, "zero test", "%s:none" % f.short, an.where(f), "blocks are called zero without looking at their bytes", f)
    R.rule("held", "a temporary file is held by one worker until the dedupe from it is finished, and emptied before reuse", 6)
    hs = {}
    for f, i, m in an.sites({"BeesContext::tmpfile"}):
        hs[f.id] = f
    if not hs:
        raise AnalysisBroken("no temporary file is used")
    for f in hs.values():
        a, e = run(an, f, lambda: Held(an), R)
        if report_all(an, R, f, a):
            R.check(a.n > 0 and a.uses > 0, "held in %s" % f.short, "%s:none" % f.short, an.where(f), "a temporary file is checked out and not used", f)
    po = [f for f in P.fn("Pool::operator()") if "BeesTempFile" in f.id]
    pi = [f for f in P.fns.values() if f.short == "Pool::Handle::~Handle" and "BeesTempFile" in f.id]
    if not po or not pi:
        raise AnalysisBroken("the pool of temporary files was not found")
    for f in po:
        a, e = run(an, f, lambda: PoolOut(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("taken off the list", f)
        for i in f.live_nodes():
            if f.nodes[i]["k"] == "ret":
                s = P.sym(f, f.nodes[i]["s"])
                ok = has(s, lambda x: x[0] == "c" and last(x[1]) == "make_shared" or x[0] in ("ctor", "new") and x[1].endswith("Handle"))
                R.check(ok, "handed out with a handle", "%s:no-handle" % f.short, an.where(f, i), "an object is handed out without the handle that puts it back", f)
    for f in pi:
        a, e = run(an, f, lambda: PoolIn(an), R, follow_dtors=False)
        if report_all(an, R, f, a):
            R.ok("put back after checkin", f)
    pushes = 0
    for f in P.fns.values():
        if f.short.startswith("Pool::") and "BeesTempFile" in f.id and f not in pi:
            for i in f.live_nodes():
                m = f.nodes[i]
                if m["k"] == "call" and last(short(m.get("n", ""))) in ("push_front", "push_back", "insert", "emplace_front", "emplace_back") and "o" in m and has(P.sym(f, m["o"]), lambda x: x[0] == "f" and last(x[2]) == "m_list"):
                    pushes += 1
                    R.bad("%s:push" % f.short, an.where(f, i), "an object is put into the pool while somebody may use it", [], f)
    ck = [f for f in P.fns.values() if f.is_lambda and in_checkin(an, f)]
    R.check(any(any(m and m["k"] == "call" and short(m.get("n", "")) == "BeesTempFile::reset" for m in f.nodes) for f in ck), "emptied before reuse", "checkin:none", "src/bees-context.cc",
            "temporary files are given back without being emptied, so they grow without bound")
    return ["pread and pwrite transfer the bytes at the given offset", "space of a file that was never written reads as zeros"]


def in_checkin(an, f):
    """f is (inside) the function the pool of temporary files runs on objects given back"""
    P = an.P
    chain = {f.id}
    o = P.lambda_owner.get(f.id)
    while o:
        chain.add(o)
        o = P.lambda_owner.get(o)
    for g in P.fns.values():
        for m in g.nodes:
            if m and m["k"] == "call" and short(m.get("n", "")) in ("Pool::checkin",) and "BeesTempFile" in m.get("f", "") and m["a"]:
                s = P.sym(g, m["a"][0])
                ids = []
                has(s, lambda x: ids.append(x[1]) if x[0] == "lam" else False)
                if any(i in chain for i in ids):
                    return True
    return False

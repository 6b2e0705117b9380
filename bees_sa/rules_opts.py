"""C26 command line: every documented option is accepted and has its documented effect."""
import os
from .common import *
from .linear import lin
from .rules_scan import run, report_all
from .rules_save import noise
from .rules_stop import above
from .rules_excl import full

# the documented options (docs/options.md): long name -> (letter or None, takes an argument)
DOC = {
    "thread-count": ("c", True), "thread-factor": ("C", True), "loadavg-target": ("g", True),
    "thread-min": ("G", True), "throttle-factor": (None, True), "scan-mode": ("m", True),
    "workaround-btrfs-send": ("a", False), "timestamps": ("t", False), "no-timestamps": ("T", False),
    "absolute-paths": ("p", False), "strip-paths": ("P", False), "verbose": ("v", True), "help": ("h", False),
}
LONG = {"c": "--thread-count", "C": "--thread-factor", "g": "--loadavg-target", "G": "--thread-min", "F": "--throttle-factor",
        "m": "--scan-mode", "a": "--workaround-btrfs-send", "t": "--timestamps", "T": "--no-timestamps", "p": "--absolute-paths",
        "P": "--strip-paths", "v": "--verbose", "h": "--help"}
INTCONV = ("stoul", "stoi", "stol", "stoull", "stoll", "strtoul", "strtol", "strtoull", "strtoll", "atoi", "atol", "atoll")
FLTCONV = ("stod", "stof", "stold", "strtod", "strtof", "strtold", "atof")
CONV = INTCONV + FLTCONV
SINKS = {
    "TaskMaster::set_thread_count": "threads",
    "TaskMaster::set_thread_min_count": "threadmin",
    "TaskMaster::set_loadavg_target": "loadavg",
    "BeesRoots::set_scan_mode": "mode",
    "BeesRoots::set_workaround_btrfs_send": "workaround",
    "set_relative_path": "relative",
    "Chatter::enable_timestamp": "timestamp",
    "BeesContext::set_root_path": "root",
}
GLOBALS = {"bees_log_level": "level", "bees_throttle_factor": "throttle"}
SCENARIOS = [(), ("c",), ("C",), ("g",), ("G",), ("F",), ("m",), ("a",), ("t",), ("T",), ("p",), ("P",), ("v",), ("h",), ("?",),
             ("c", "C"), ("C", "c"), ("g", "G"), ("G", "g"), ("p", "P"), ("P", "p"), ("t", "T"), ("T", "t"), ("a", "m"), ("m", "a")]


def subs(s):
    if isinstance(s, tuple) and s:
        if isinstance(s[0], str):
            yield s
        for x in s:
            yield from subs(x)


def has(s, pred):
    return any(pred(x) for x in subs(s))


def num(s):
    if s and s[0] == "k":
        try:
            return float(s[1])
        except ValueError:
            return {"true": 1.0, "false": 0.0}.get(s[1])
    return None


def mkk(x):
    return ("k", str(int(x)) if float(x).is_integer() else repr(float(x)))


def size(s):
    return 1 + sum(size(x) for x in s if isinstance(x, tuple))


class Parse(NameAut):
    """one given option sequence is parsed; state: (next option, last option, values, effects, assumptions)"""
    expand = False

    def __init__(self, an, seq, codes, home):
        super().__init__()
        self.an, self.seq, self.codes, self.home = an, seq, codes, home
        self.nstart = 0
        self.nget = 0

    def initial(self):
        return (0, None, frozenset(), frozenset(), frozenset())

    def relevant(self, fn, i, n):
        if n["k"] not in ("call", "ctor"):
            return False
        name = short(n.get("n", ""))
        return name in SINKS or name in ("getopt_long", "getopt", "BeesContext::start") or last(name) in CONV or any(t.file in self.home and "::" not in t.short and not noise(t) for t in self.an.P.targets(n))

    def never_enter(self, fn):
        if noise(fn) or fn.short in SINKS or fn.short == "BeesContext::start":
            return True
        return not (fn.is_lambda or fn.file in self.home and "::" not in fn.short) and not self.touches(fn)

    def touches(self, fn):
        if not hasattr(self, "_t"):
            self._t = {}
        if fn.id not in self._t:
            self._t[fn.id] = any(n and (n["k"] == "ref" and n.get("name", n.get("var", "")) in ("optarg", "optind") or n["k"] == "call" and short(n.get("n", "")) in ("getopt_long", "getopt")) for n in fn.nodes)
        return self._t[fn.id]

    def ignore_exc(self, ctx, n, name):
        return True

    # ---- values
    def val(self, st, s, d=0):
        idx, cur, store, rec, asm = st
        if not isinstance(s, tuple) or not s or d > 30:
            return s
        m = dict(store)
        if s in m:
            return m[s]
        k = s[0]
        if k == "g" and s[1] == "optarg":
            return ("arg", cur)
        if k == "g" and last(s[1]) in GLOBALS:
            g = self.an.P.globals.get(last(s[1]))
            if g and g.get("v") is not None and ("set", GLOBALS[last(s[1])]) not in m:
                return ("k", str(g["v"]))
            return s
        if k == "g":
            g = self.an.P.globals.get(s[1]) or self.an.P.globals.get(last(s[1]))
            if g and g.get("v") is not None and g["t"].startswith("const "):
                return ("k", str(g["v"]))
            return s
        if k == "c":
            nm = last(s[1])
            if nm in ("getopt_long", "getopt"):
                return ("k", str(self.codes.get(cur, -2))) if cur is not None else s
            ar = tuple(self.val(st, a, d + 1) for a in s[3])
            if nm in CONV:
                return ("conv", nm in FLTCONV, ar[0] if ar else None)
            if nm in ("c_str", "data", "str") and s[2]:
                return self.val(st, s[2], d + 1)
            if nm in ("max", "min") and len(ar) == 2 and all(num(a) is not None for a in ar):
                return mkk((max if nm == "max" else min)(num(ar[0]), num(ar[1])))
            rv = m.get(("ret", s[1]))
            if rv is not None:
                return rv
            if any(f.blocks for f in self.an.P.by_short.get(s[1], ())) and s[1] not in SINKS:
                ar += (("unknown",),)
            return (s[0], s[1], self.val(st, s[2], d + 1) if s[2] else s[2], ar)
        if k == "ctor" and last(s[1]) == "basic_string" and len(s) > 2 and s[2]:
            return self.val(st, s[2][0], d + 1)
        if k == "ctor" and len(s) > 2 and len(s[2]) == 1 and last(s[1]) in ("shared_ptr", "atomic", "ScanMode"):
            return self.val(st, s[2][0], d + 1)
        if k == "not":
            v = self.val(st, s[1], d + 1)
            n = num(v)
            return ("k", "0" if n else "1") if n is not None else ("not", v)
        if k == "o" and len(s) == 4:
            a, b = self.val(st, s[2], d + 1), self.val(st, s[3], d + 1)
            x, y = num(a), num(b)
            if x is not None and y is not None:
                try:
                    r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y,
                         "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "&&": lambda: bool(x and y), "||": lambda: bool(x or y)}.get(s[1])
                    if r:
                        return mkk(r())
                except (ZeroDivisionError, OverflowError):
                    pass
            return ("o", s[1], a, b)
        if k == "o" and len(s) == 5 and s[1] == "?:":
            c = self.val(st, s[2], d + 1)
            n = num(c)
            if n is None:
                for (e, p) in asm:
                    if e == c:
                        n = 1.0 if p else 0.0
            if n is not None:
                return self.val(st, s[3] if n else s[4], d + 1)
            return (k, "?:", c, self.val(st, s[3], d + 1), self.val(st, s[4], d + 1))
        if k == "cast" and len(s) > 1 and isinstance(s[-1], tuple):
            return self.val(st, s[-1], d + 1)
        return tuple(self.val(st, x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(self.val(st, y, d + 1) for y in x) if isinstance(x, tuple) else x for x in s)

    def put(self, store, key, v):
        if v is not None and size(v) > 60:
            v = ("unknown",)
        out = {(k, x) for k, x in store if k != key}
        if v is not None:
            out.add((key, v))
        return frozenset(out)

    def lval(self, s):
        return s[0] in ("v", "g") or s[0] == "f" and self.lval(s[1])

    def base(self, s):
        while s[0] == "f":
            s = s[1]
        return s

    def write(self, st, ctx, key, s, op="="):
        idx, cur, store, rec, asm = st
        while key and key[0] in ("addr", "&", "*") and len(key) == 2:
            key = key[1]
        if not self.lval(key):
            return None
        if op == "=":
            v = self.val(st, s)
            if v[0] in ("v", "g"):
                # a whole object is copied
                add = []
                for k, x in store:
                    if k[0] == "f" and self.base(k) == v:
                        add.append((self.rebase(k, v, key), x))
                store = frozenset((k, x) for k, x in store if not (k[0] == "f" and self.base(k) == key)) | frozenset(add)
        elif op in ("++", "--", "p++", "p--"):
            n = num(self.val(st, key))
            v = mkk(n + (1 if "+" in op else -1)) if n is not None else ("unknown",)
        else:
            a, b = self.val(st, key), self.val(st, s)
            x = self.val(st, ("o", op[:-1], a, b))
            v = x
        if key[0] == "g":
            if last(key[1]) in GLOBALS:
                g = GLOBALS[last(key[1])]
                rec = self.put(rec, g, ("tmp",))
                rec = frozenset((k, x) for k, x in rec if k != g) | {(g, (v, asm))}
                store = self.put(store, ("set", g), ("k", "1"))
            elif last(key[1]) not in ("optind",):
                return None
        return [(idx, cur, self.put(store, key, v), rec, asm)]

    def rebase(self, k, a, b):
        if k == a:
            return b
        return k[:1] + (self.rebase(k[1], a, b),) + k[2:]

    def on_bind(self, st, ctx, var, typ, s):
        if s == ("none",):
            return None
        if s[0] == "ctor" and not s[2]:
            # the members' initial values
            add = []
            nm = s[1] + "::" + last(s[1])
            for f in self.an.P.by_short.get(nm, []):
                if f.params:
                    continue
                for b in f.blocks:
                    for e in b["el"]:
                        if isinstance(e, dict) and e.get("k") == "init" and e.get("fd"):
                            v = self.val(st, self.an.P.sym(f, e["e"], None, 0, False))
                            if num(v) is not None:
                                add.append((("f", ("v", var), e["fd"]), v))
            if add:
                idx, cur, store, rec, asm = st
                for k, v in add:
                    store = self.put(store, k, v)
                return [(idx, cur, store, rec, asm)]
        return self.write(st, ctx, ("v", var), s)

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        return self.write(st, ctx, lhs, rhs, op)

    def on_return(self, st, ctx, n, s):
        if not ctx.stack or s == ("none",):
            return None
        idx, cur, store, rec, asm = st
        v = self.val(st, s)
        if size(v) > 60:
            v = ("unknown",)
        return [(idx, cur, self.put(store, ("ret", ctx.fn.short), v), rec, asm)]

    def after_call(self, st, ctx, n, name, recv, args):
        idx, cur, store, rec, asm = st
        if last(name) in ("getopt_long", "getopt"):
            self.nget += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if idx > len(self.seq):
                return []
            c = self.seq[idx] if idx < len(self.seq) else "end"
            return [(idx + 1, c, store, rec, asm)]
        # a variable handed over by reference to something not looked into
        if n["k"] == "call" and not any(t.blocks and t.id in ctx.eng.rel and not self.never_enter(t) for t in self.an.P.targets(n)):
            pk = n.get("pk", "")
            ch = False
            for j, a in enumerate(args):
                b = a
                amp = False
                while b and b[0] in ("addr", "&") and len(b) == 2:
                    b = b[1]
                    amp = True
                if b and b[0] == "v" and (amp or j < len(pk) and pk[j] == "r") and any(k == b for k, x in store):
                    store = self.put(store, b, None)
                    ch = True
            if ch:
                return [(idx, cur, store, rec, asm)]
        return None

    def on_branch(self, st, ctx, facts):
        idx, cur, store, rec, asm = st
        new = set()
        for s, p in facts:
            v = self.val(st, s)
            n = num(v)
            if n is not None:
                if bool(n) != bool(p):
                    return []
                continue
            while v[0] == "not":
                v, p = v[1], not p
            if (v, not p) in asm:
                return []
            if size(v) <= 40 and has(v, lambda x: x[0] in ("arg",) or x[0] == "g" and x[1] == "optind"):
                new.add((v, p))
        if new - asm:
            return [(idx, cur, store, rec, asm | frozenset(new))]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        idx, cur, store, rec, asm = st
        if name in SINKS:
            self.instances.add((ctx.fn.id, ctx.node))
            v = self.val(st, args[0]) if args else ("none",)
            k = SINKS[name]
            return [(idx, cur, store, frozenset(x for x in rec if x[0] != k) | {(k, (v, asm))}, asm)]
        if name == "BeesContext::start":
            self.nstart += 1
            self.instances.add((ctx.fn.id, ctx.node))
            self.judge(st, ctx)
            return []
        return None

    # ---- what must be in effect when the daemon starts
    def judge(self, st, ctx):
        idx, cur, store, rec, asm = st
        seq = self.seq
        rec = dict(rec)
        what = "option %s" % " ".join(LONG.get(o, o) for o in seq) if seq else "no options"

        def bad(key, msg):
            self.report(ctx, key, "with %s: %s" % (what, msg))
        if "h" in seq:
            return bad("help", "the daemon starts although only help was asked for")
        if "?" in seq:
            return bad("unknown", "the daemon starts although an option was not understood")
        if cur != "end":
            return bad("early", "the daemon starts before all options were looked at")
        given = lambda o: o in seq

        def lastof(*os):
            for o in reversed(seq):
                if o in os:
                    return o
        isarg = lambda o: (lambda x: x == ("arg", o))
        anyarg = lambda v: has(v, lambda x: x[0] == "arg")

        def zero(o):
            """this path assumes the argument of o to be zero"""
            for e, p in asm:
                if e[0] == "o" and e[1] in ("==", "<") and has(e, isarg(o)):
                    a, b = e[2], e[3]
                    if e[1] == "==" and p and (num(a) == 0 or num(b) == 0):
                        return True
                    if e[1] == "<" and p and num(b) is not None and num(b) <= 1 and a[0] == "conv":
                        return True
                    if e[1] == "<" and not p and num(a) == 0:
                        return True
                elif e[0] == "conv" and e[2] == ("arg", o) and not p:
                    return True
            return False

        def plain(key, o, v, isfloat=None, exact=True):
            """the value handed over is the argument of o"""
            while v[0] == "o" and v[1] == "+" and (num(v[2]) == 0 or num(v[3]) == 0):
                v = v[3] if num(v[2]) == 0 else v[2]
            if v[0] == "conv" and v[2] == ("arg", o):
                if isfloat and not v[1]:
                    bad(key, "the fraction of the argument of %s is lost" % LONG[o])
                return
            if num(v) is not None:
                return bad(key, "the argument of %s is not used (%s instead)" % (LONG[o], v[1]))
            if not anyarg(v):
                if v[0] in ("o", "c") and not has(v, lambda x: x[0] in ("v", "unknown", "f", "ret")):
                    bad(key, "the argument of %s is not used" % LONG[o])
                return
            if not has(v, isarg(o)):
                return bad(key, "the argument of another option is used for %s" % LONG[o])
            if isfloat and has(v, lambda x: x[0] == "conv" and x[2] == ("arg", o) and not x[1]):
                return bad(key, "the fraction of the argument of %s is lost" % LONG[o])
            if not exact:
                return
            if v[0] == "c" and last(v[1]) == "min" or v[0] == "o" and v[1] in ("+", "-", "*", "/"):
                if v[0] == "c" and any(num(a) is None and not anyarg(a) for a in v[3]):
                    pass
                return bad(key, "the argument of %s is changed before it is used" % LONG[o])

        def const(key, v, want, why):
            n = num(v)
            if n is not None and n != want:
                bad(key, why + " (%s)" % v[1])
            elif n is None and anyarg(v):
                bad(key, why)

        # worker threads
        v = rec.get("threads")
        if v is None:
            bad("threads:unset", "the number of worker threads is never set")
        else:
            v = v[0]
            if given("c") and not zero("c"):
                if v[0] == "c" and last(v[1]) == "max" and any(num(a) is not None and num(a) <= 1 for a in v[3]):
                    v = [a for a in v[3] if num(a) is None or num(a) > 1][0] if any(num(a) is None for a in v[3]) else v
                plain("threads", "c", v)
            else:
                self.hc(bad, v, given("C") and not zero("C"), zero("C"))
        # load average
        v = rec.get("loadavg")
        if given("g"):
            if v is None:
                if not zero("g"):
                    bad("loadavg", "the load average target is not passed on")
            else:
                if not (zero("g") and num(v[0]) == 0):
                    plain("loadavg", "g", v[0], True)
        elif v is not None:
            const("loadavg", v[0], 0, "a load average target is set although none was asked for")
        # least number of threads
        v = rec.get("threadmin")
        if given("g") and given("G") and not zero("g") and not zero("G"):
            if v is None:
                bad("threadmin", "the minimum number of worker threads is not passed on")
            else:
                plain("threadmin", "G", v[0])
        elif v is not None and not given("G"):
            const("threadmin", v[0], 0, "a minimum number of worker threads is set although none was asked for")
        # scan mode
        v = rec.get("mode")
        if v is None:
            bad("mode:unset", "the scan mode is never set")
        elif given("m"):
            plain("mode", "m", v[0])
        else:
            const("mode", v[0], 4, "the default scan mode is not 4")
        # send workaround
        v = rec.get("workaround")
        if given("a"):
            if v is None or num(v[0]) == 0:
                bad("workaround", "--workaround-btrfs-send has no effect")
        elif v is not None:
            const("workaround", v[0], 0, "read-only snapshots are ignored although this was not asked for")
        # paths
        v = rec.get("relative")
        if lastof("p", "P") == "P":
            if v is None or v[0] in (("s", ""), ("none",)):
                bad("paths", "--strip-paths has no effect")
        elif v is not None and v[0] not in (("s", ""), ("none",)):
            bad("paths", "paths are stripped although absolute paths are asked for")
        # timestamps
        v = rec.get("timestamp")
        want = 0 if lastof("t", "T") == "T" else 1
        if v is None:
            if not want:
                bad("timestamps", "--no-timestamps has no effect")
        else:
            const("timestamps", v[0], want, "timestamps are %s" % ("omitted" if want else "shown"))
        # verbosity
        v = rec.get("level")
        if given("v"):
            if v is None:
                bad("verbose", "--verbose has no effect")
            else:
                plain("verbose", "v", v[0])
                up = self.upper(v[1], ("arg", "v"), v[0])
                if up is None:
                    bad("verbose:range", "any verbosity is taken, above 8 too")
                elif up != 8:
                    bad("verbose:range", "the highest verbosity taken is %g, not 8" % up)
        elif v is not None:
            const("verbose", v[0], 8, "the default verbosity is not 8")
        # throttle
        v = rec.get("throttle")
        if given("F"):
            if v is None:
                bad("throttle", "--throttle-factor has no effect")
            else:
                plain("throttle", "F", v[0], True)
        elif v is not None:
            const("throttle", v[0], 0, "operations are delayed although this was not asked for")
        # file system
        v = rec.get("root")
        if v is None:
            bad("root:unset", "the file system is never set")
        elif v[0][0] == "s":
            bad("root", "the file system is not the one named on the command line")
        if not self.argcount(asm):
            bad("count", "the daemon starts although the number of file system paths was not found to be one")

    def upper(self, asm, arg, v):
        """the largest value of the argument under the assumptions"""
        up = None
        for e, p in asm:
            if e[0] == "o" and e[1] == "<" and has(e, lambda x: x == arg):
                a, b = e[2], e[3]
                if not p and num(a) is not None:
                    u = num(a)
                elif p and num(b) is not None:
                    u = num(b) - 1
                else:
                    continue
                up = u if up is None else min(up, u)
        if v[0] == "c" and last(v[1]) == "min":
            for a in v[3]:
                if num(a) is not None:
                    up = num(a) if up is None else min(up, num(a))
        return up

    def argcount(self, asm):
        isind = lambda x: x[0] == "g" and x[1] == "optind"
        lo = hi = False
        for e, p in asm:
            if not has(e, isind):
                continue
            if e[0] == "o" and e[1] in ("==", "<"):
                l = lin(e[2])
                for a, c in lin(e[3]).items():
                    l[a] = l.get(a, 0) - c
                co = sum(c for a, c in l.items() if a != 1 and isind(a))
                oth = [(a, c) for a, c in l.items() if a != 1 and not isind(a) and c]
                k = l.get(1, 0)
                if abs(co) != 1 or len(oth) != 1 or oth[0][1] != -co:
                    return True     # a form not judged
                # co*optind - co*other + k  (== or <) 0
                d = -k * co         # bound on optind - argc
                if e[1] == "==":
                    if p and d == -1:
                        lo = hi = True
                    elif p:
                        return False
                elif p:
                    # co*(x) + k < 0
                    if co == 1:
                        hi = hi or -k - 1 <= -1
                    else:
                        lo = lo or k + 1 >= -1
                else:
                    if co == 1:
                        lo = lo or -k >= -1
                    else:
                        hi = hi or k <= -1
            elif e[0] not in ("o",):
                return True
        return lo and hi

    def hc(self, bad, v, factor, zerofactor):
        """worker threads counted from the CPUs"""
        ishc = lambda x: x[0] == "c" and last(x[1]) in ("hardware_concurrency", "get_nprocs", "get_nprocs_conf", "sysconf")
        if has(v, lambda x: x[0] in ("unknown", "v", "f", "g")) and not num(v):
            return
        if num(v) is not None or not has(v, ishc):
            return bad("threads", "the number of worker threads does not depend on the number of CPUs")
        if has(v, lambda x: x[0] == "arg" and x[1] not in ("C",)):
            return bad("threads", "the number of worker threads depends on another option")
        if factor:
            if not has(v, lambda x: x == ("arg", "C")):
                return bad("threads", "the thread factor is not used")
            if has(v, lambda x: x[0] == "conv" and x[2] == ("arg", "C") and not x[1]):
                return bad("threads", "the fraction of the thread factor is lost")
            if not has(v, lambda x: x[0] == "o" and x[1] == "*" and has(x, ishc) and has(x, lambda y: y == ("arg", "C"))):
                return bad("threads", "the CPUs are not multiplied by the thread factor")
        for x in subs(v):
            if x[0] == "o" and x[1] in ("*", "/") and has(x, ishc):
                for a in x[2:]:
                    n = num(a)
                    if n is not None and n != 1:
                        return bad("threads", "the default number of worker threads is %s%g per CPU" % ("1/" if x[1] == "/" else "", n))
            if x[0] == "o" and x[1] in ("+", "-") and has(x, ishc) and any(num(a) for a in x[2:]) and not has(v, lambda y: y[0] == "c" and last(y[1]) in ("floor",)):
                return bad("threads", "the number of worker threads differs from the number of CPUs times the factor")


def table(an, R):
    """the option table given to getopt_long"""
    P = an.P
    out = []
    for f, i, n in an.sites({"getopt_long"}, False):
        if f.id not in an.reach:
            continue
        s = P.sym(f, n["a"][3])
        if s[0] != "il":
            t = P.sym(f, n["a"][3], None, 0, False)
            if t[0] == "v":
                for d in P_defs(an, f, t[1]):
                    if d[0] == "il":
                        s = d
            elif t[0] == "g":
                g = P.globals.get(last(t[1]))
                s = ("?",)
        out.append((f, i, n, s))
    return out


def P_defs(an, f, var):
    o = an.var_owner.get(var)
    if not o:
        return []
    fn = o[0]
    r = []
    for n in fn.nodes:
        if n and n["k"] == "decl":
            for d in n["d"]:
                if d["var"] == var and d.get("init") is not None and d["init"] >= 0:
                    r.append(an.P.sym(fn, d["init"], None, 0, False))
    return r


def c26(an, R):
    P = an.P
    R.rule("table", "the option table holds every documented option with its documented letter, and takes an argument exactly where documented", 13)
    tabs = table(an, R)
    if not tabs:
        R.bad("no-getopt", "src/bees.cc", "nothing parses the command line")
        return []
    codes = {"end": -1, "?": 63}
    f0 = tabs[0][0]
    rows = {}
    for f, i, n, s in tabs:
        if s[0] != "il":
            continue
        for e in s[1:]:
            if e and e[0] == "il" and len(e) >= 5 and e[1][0] == "s" and konst(e[2]) is not None and konst(e[4]) is not None:
                rows[e[1][1]] = (konst(e[2]), konst(e[4]), e[3])
        w = an.where(f, i)
        for name, (let, arg) in sorted(DOC.items()):
            if name not in rows:
                R.bad("missing:%s" % name, w, "the documented option --%s is not accepted" % name, fn=f)
                continue
            ha, code, flag = rows[name]
            codes[let or "F"] = int(code)
            R.check(ha == (1 if arg else 0), "--%s %s an argument" % (name, "takes" if arg else "takes no"), "arg:%s" % name, w, "--%s %s an argument, unlike documented" % (name, "does not take" if arg else "takes"), f)
            if let:
                R.check(code == ord(let), "--%s is -%s" % (name, let), "letter:%s" % name, w, "-%s does not mean --%s" % (let, name), f)
            else:
                R.check(not any(code == r[1] for m, r in rows.items() if m != name), "--%s is told from the others" % name, "code:%s" % name, w, "--%s is taken for another option" % name, f)
        if n["a"][2] is not None:
            t = P.sym(f, n["a"][2])
            if t[0] == "s":
                for name, (let, arg) in sorted(DOC.items()):
                    if let:
                        j = t[1].find(let)
                        R.check(j >= 0 and (t[1][j + 1:j + 2] == ":") == arg, "-%s in the list of letters" % let, "list:%s" % let, w, "-%s is not accepted as documented" % let, f)
            else:
                colon(an, R, f, n)
    if not rows:
        R.ok("the option table is not built from constants: not judged", f0)
        for name, (let, arg) in DOC.items():
            R.ok("--%s" % name, f0)
            codes[let or "F"] = ord(let) if let else 256
    for let in LONG:
        codes.setdefault(let, -3)

    R.rule("effect", "each option sequence has its documented effect on what is configured when the daemon starts", len(SCENARIOS))
    roots = [f for f in an.roots_for([f for f, i, n in an.sites({"BeesContext::start"}, False)]) if f.id in an.reach or f.short == "main"]
    home = {f.file for f, i, n, s in tabs}
    top = []
    bm = [f for f in P.by_short.get("bees_main", []) if f.blocks]
    top = bm or roots
    if not top:
        R.bad("no-start", "src/bees.cc", "nothing starts the daemon")
        return []
    for f in top:
        starts = gets = 0
        for seq in SCENARIOS:
            a, e = run(an, f, lambda: Parse(an, seq, codes, home), R)
            gets += a.nget
            if not ("h" in seq or "?" in seq):
                R.check(a.nstart > 0 or a.nget == 0, "the daemon starts with %s" % (seq,), "start:%s" % "+".join(seq), an.where(f), "the daemon never starts when given %s" % " ".join(LONG.get(o, o) for o in seq), f)
            if report_all(an, R, f, a, "+".join(seq) + ":" if seq else ""):
                R.ok("options %s" % (seq,), f)
    globs(an, R)
    modes(an, R)
    throttle(an, R)
    usage(an, R, f0)
    kept(an, R)
    limits(an, R)
    verbosity(an, R)
    return []


class Colon(NameAut):
    """the letter list is built from the table: state (takes an argument?, letter put, colon put)"""
    expand = False

    def __init__(self, an, lst):
        super().__init__()
        self.an, self.lst = an, lst
        self.nput = 0

    def initial(self):
        return (None, False, False)

    def relevant(self, fn, i, n):
        return n["k"] == "call" and (n.get("op") == "+=" or last(short(n.get("n", ""))) in ("push_back", "append", "getopt_long"))

    def never_enter(self, fn):
        return True

    def ignore_exc(self, ctx, n, name):
        return True

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            if s[0] == "not":
                s, p = s[1], not p
            if has(s, lambda x: x[0] == "f" and x[2] == "option::has_arg"):
                if s[0] == "f":
                    return [(p,) + st[1:]]
                if s[0] == "o" and s[1] == "==" and (num(s[2]) is not None or num(s[3]) is not None):
                    k = num(s[2]) if num(s[2]) is not None else num(s[3])
                    return [((p if k else not p),) + st[1:]]
                return [("?",) + st[1:]]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        if last(name) == "getopt_long":
            return []
        if recv is None or recv[:2] != self.lst or not args:
            return None
        ha, let, col = st
        self.instances.add((ctx.fn.id, ctx.node))
        a = args[-1]
        if a in (("k", "58"), ("s", ":")) or len(args) == 2 and args[1] == ("k", "58"):
            return [(ha, let, True)]
        if has(a, lambda x: x[0] == "f" and x[2] == "option::val"):
            self.nput += 1
            return [(ha, True, col)]
        return None

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] != "v" or not ("++" in op or "+=" in op) or lhs == self.lst:
            return None
        ha, let, col = st
        if let and ha != "?":
            if ha is None:
                self.report(ctx, "untested", "an option letter is put into the list without looking whether the option takes an argument")
            elif ha and not col:
                self.report(ctx, "no-colon", "an option with an argument is put into the letter list as one without")
            elif not ha and col:
                self.report(ctx, "colon", "an option without an argument is put into the letter list as one with an argument")
        return [self.initial()]


def colon(an, R, f, n):
    P = an.P
    t = P.sym(f, n["a"][2], None, 0, False)
    if t[0] != "c" or not t[2] or t[2][0] != "v":
        return
    lst = t[2]
    a, e = run(an, f, lambda: Colon(an, lst), R)
    if a.nput:
        report_all(an, R, f, a, "letters:")


def throttle(an, R):
    P = an.P
    R.rule("throttle", "the operations documented as throttled are delayed by the factor times their average run time less the time used, and by 60 seconds at most", 4)
    fs = [f for f in P.by_short.get("bees_throttle", []) if f.blocks]
    if not fs:
        R.bad("no-throttle", "src/bees.cc", "--throttle-factor delays nothing: there is no throttle")
        return
    isf = lambda x: x[0] == "g" and last(x[1]) == "bees_throttle_factor"
    for f in fs:
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] != "call" or last(short(n.get("n", ""))) not in ("nanosleep", "usleep", "sleep", "sleep_for") or not n["a"]:
                continue
            s = P.sym(f, n["a"][0])
            w = an.where(f, i)
            caps = [num(a) for x in subs(s) if x[0] == "c" and last(x[1]) == "min" and len(x[3]) == 2 for a in x[3] if num(a) is not None]
            if caps:
                R.check(min(caps) == 60, "the delay is at most 60 s", "cap", w, "the longest delay is %g s, documented is 60" % min(caps), f)
            elif s[0] in ("o", "c") and not has(s, lambda x: x[:2] == ("o", "?:") or x[0] == "v" and "@" in x[1] and not f.single_def(x[1]) and x[1] not in [p["var"] for p in f.params]):
                R.bad("cap", w, "the delay is not limited to 60 s", fn=f)
            else:
                R.ok("the delay is computed in steps: its limit is not judged", f)
            body = [x for x in subs(s) if x[0] == "o" and x[1] == "-" and has(x, isf)]
            if has(s, isf) and not body and not has(s, lambda x: x[:2] == ("o", "?:")):
                R.bad("used", w, "the time the operation took is not taken off the delay", fn=f)
            for x in body[:1]:
                tm = [y for y, c in lin(x).items() if y != 1 and c < 0]
                R.check(not any(has(y, isf) for y in tm) and tm, "the delay is what is left of the average", "sign", w, "the delay is not the factor times the average less the time used", f)
            if not has(s, isf) and not any(isf(P.sym(f, j)) for j in f.live_nodes() if f.nodes[j]["k"] == "ref"):
                R.bad("factor", w, "the delay does not depend on the throttle factor", fn=f)
    callers = set()
    for f in fs:
        callers |= above(an, [f])
    for nm, what in (("BeesContext::dedup", "dedupe"), ("BeesTempFile::make_copy", "temporary file copy"), ("BeesContext::resolve_addr_uncached", "LOGICAL_INO")):
        g = [x for x in P.by_short.get(nm, []) if x.blocks]
        if g:
            R.check(any(x.id in callers for x in g), "%s is throttled" % what, "unthrottled:%s" % nm, an.where(g[0]), "%s is not throttled" % what, g[0])


def usage(an, R, f):
    """the usage text compiled into the program agrees with the code"""
    R.rule("usage", "the usage text names the letters and defaults the program really has", 4)
    p = os.path.join(os.environ.get("BEES_SA_REPO", "/repo"), "src", "bees-usage.txt")
    try:
        text = open(p).read()
    except OSError:
        R.bad("gone", "src/bees-usage.txt", "there is no usage text")
        return
    for name, (let, arg) in sorted(DOC.items()):
        m = re.search(r"^\s+(?:-(\w),\s+)?\s*--%s\b(.*)$" % re.escape(name), text, re.M)
        if not m:
            R.bad("missing:%s" % name, "src/bees-usage.txt", "the usage text does not name --%s" % name)
            continue
        R.check(m.group(1) == let or not m.group(1), "usage of --%s" % name, "letter:%s" % name, "src/bees-usage.txt", "the usage text calls --%s -%s" % (name, m.group(1)), f)
        d = re.search(r"default ([0-9.]+)", m.group(2))
        want = {"throttle-factor": 0, "scan-mode": 4, "thread-min": 0, "thread-factor": 1, "verbose": 8}.get(name)
        if d and want is not None:
            R.check(float(d.group(1).rstrip(".")) == want, "default of --%s" % name, "default:%s" % name, "src/bees-usage.txt", "the usage text gives %s as the default of --%s, it is %g" % (d.group(1), name, want), f)


def globs(an, R):
    for g, k in sorted(GLOBALS.items()):
        x = an.P.globals.get(g)
        if not x or x.get("v") is None:
            continue
        want = {"level": 8, "throttle": 0}[k]
        R.check(float(x["v"]) == want, "%s is %g by default" % (g, want), "default:%s" % k, "%s:%s" % (x["file"], x["line"]),
                "%s is %s by default, documented is %g" % (g, x["v"], want))


MODES = {0: "Lockstep", 1: "Independent", 2: "Sequential", 3: "Recent", 4: "Extent"}


class Mode(NameAut):
    """set_scan_mode(k): which scanner is made"""
    expand = False

    def __init__(self, an, var, k):
        super().__init__()
        self.an, self.var, self.k = an, var, k
        self.made = set()
        self.done = False

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        return n["k"] in ("call", "ctor") and ("BeesScanMode" in n.get("t", "") or "BeesScanMode" in n.get("n", "") or fn.short == "BeesRoots::set_scan_mode")

    def never_enter(self, fn):
        return noise(fn) or fn.d.get("ctor", False) or last(fn.short).startswith("ntoa")

    def ignore_exc(self, ctx, n, name):
        return True

    def on_branch(self, st, ctx, facts):
        for s, p in facts:
            v = self.fold(s)
            if v is not None and v != p:
                return []
        return None

    def fold(self, s):
        if s[0] == "not":
            v = self.fold(s[1])
            return None if v is None else not v
        if s[0] == "o" and len(s) == 4 and s[1] in ("==", "<", "!=", "<=", ">", ">="):
            a, b = (float(self.k) if x == ("v", self.var) else num(x) for x in s[2:])
            if a is None or b is None:
                return None
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[s[1]]
        return None

    def on_call(self, st, ctx, n, name, recv, args):
        m = re.search(r"BeesScanMode(\w+)", n.get("t", "")) if "make_shared" in n.get("n", "") or "make_unique" in n.get("n", "") else None
        if not m and n["k"] == "ctor":
            m = re.match(r"BeesScanMode(\w+)$", short(n.get("n", "")))
        if m:
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {m.group(1)}]
        return None

    def on_leave(self, st, ctx, kind):
        if not ctx.stack and kind == "ret":
            self.made.add(st)
        return None


def modes(an, R):
    P = an.P
    R.rule("mode", "each scan mode number makes the scanner documented for it, and any other number is refused", 6)
    fs = [f for f in P.by_short.get("BeesRoots::set_scan_mode", []) if f.blocks]
    if not fs:
        R.bad("no-mode", "src/bees-roots.cc", "the scan mode cannot be set")
        return
    for f in fs:
        for k in sorted(MODES) + [5]:
            a, e = run(an, f, lambda: Mode(an, f.params[0]["var"], k), R)
            if k == 5:
                R.check(not any(x for x in a.made), "mode 5 is refused", "accepts:5", an.where(f), "scan mode 5 is accepted", f)
                continue
            judged = [x for x in a.made if x]
            if not judged and a.made:
                R.bad("none:%d" % k, an.where(f), "scan mode %d selects no scanner" % k, fn=f)
                continue
            if not a.made:
                R.bad("refused:%d" % k, an.where(f), "the documented scan mode %d is refused" % k, fn=f)
                continue
            R.check(all(x == frozenset([MODES[k]]) or len(x) != 1 for x in judged), "mode %d is %s" % (k, MODES[k]), "wrong:%d" % k, an.where(f),
                    "scan mode %d makes %s, documented is %s" % (k, sorted(judged[0])[0] if judged and judged[0] else None, MODES[k]), f)
    en = P.enums.get("BeesRoots::ScanMode")


STORED = {
    "TaskMaster::set_thread_count": "--thread-count", "TaskMaster::set_thread_min_count": "--thread-min", "TaskMaster::set_loadavg_target": "--loadavg-target",
    "BeesRoots::set_workaround_btrfs_send": "--workaround-btrfs-send", "Chatter::enable_timestamp": "--timestamps",
}


class Kept(NameAut):
    """a setter keeps its parameter; state: fields holding it"""

    def __init__(self, an, f):
        super().__init__()
        self.an, self.par = an, ("v", f.params[0]["var"])
        self.kept, self.lost, self.some = set(), {}, False

    def initial(self):
        return frozenset()

    def relevant(self, fn, i, n):
        return n["k"] == "as"

    def never_enter(self, fn):
        return not (fn.short.startswith(("TaskMasterState::set_", "TaskMaster::set_", "BeesRoots::set_", "Chatter::")) or fn.is_lambda)

    def ignore_exc(self, ctx, n, name):
        return True

    def on_assign(self, st, ctx, n, lhs, rhs, op):
        if lhs[0] not in ("f", "g") and not (lhs[0] == "v" and self.static(lhs[1])):
            return None
        r = rhs
        while r[0] == "ctor" and len(r) > 2 and len(r[2]) == 1:
            r = r[2][0]
        fld = lhs[2] if lhs[0] == "f" else lhs[1]
        if r == self.par and op == "=":
            self.kept.add(fld)
            self.instances.add((ctx.fn.id, ctx.node))
            return [st | {fld}]
        if fld in st:
            self.lost[fld] = (ctx.where(), show(rhs, 60))
        if has(r, lambda x: x == self.par):
            self.some = True
            self.lost.setdefault(fld, (ctx.where(), show(rhs, 60)))
        return None

    def static(self, v):
        o = self.an.var_owner.get(v)
        return bool(o and o[1] == "local" and o[2].get("st"))


def kept(an, R):
    P = an.P
    R.rule("kept", "each setter the options reach keeps the value it is given", 4)
    for nm, opt in sorted(STORED.items()):
        for f in P.by_short.get(nm, []):
            if not f.blocks or not f.params or f.id not in an.reach:
                continue
            # a one-argument setter; the overload without arguments has none
            if len(f.params) != 1:
                continue
            a, e = run(an, f, lambda: Kept(an, f), R)
            if a.kept and not a.lost:
                R.ok("%s keeps its value" % nm, f)
            elif a.lost:
                fld, (w, v) = sorted(a.lost.items())[0]
                R.bad("changed:%s" % nm, w, "%s keeps %s instead of the value given with %s" % (nm, v, opt), fn=f)
            else:
                R.bad("dropped:%s" % nm, an.where(f), "%s does not keep the value given with %s" % (nm, opt), fn=f)


class Limit(NameAut):
    """state: (room for one more worker, this worker is not one too many)"""
    expand = False

    def __init__(self, an):
        super().__init__()
        self.an = an
        self.nins = self.nexec = 0

    def initial(self):
        return (False, False)

    def relevant(self, fn, i, n):
        return n["k"] == "call" and last(short(n.get("n", ""))) in ("insert", "emplace", "exec", "wait")

    def never_enter(self, fn):
        return fn.short == "TaskState::exec" or fn.short.startswith(("Chatter", "BeesNote", "BeesTracer"))

    def ignore_exc(self, ctx, n, name):
        return True

    def fld(self, s, f):
        return s[0] == "f" and last(s[2]) == f

    def side(self, s):
        if self.fld(s, "m_thread_max"):
            return "max"
        if s[0] == "c" and last(s[1]) == "size" and s[2] and self.fld(s[2], "m_threads"):
            return "size"
        return None

    def on_branch(self, st, ctx, facts):
        room, fits = st
        for s, p in facts:
            s = full(self.an, s) if s[0] != "o" else s
            if s[0] == "o" and len(s) == 4 and s[1] == "<":
                ab = tuple(self.side(full(self.an, x)) for x in s[2:])
                if ab == ("size", "max"):
                    room, fits = (True, True) if p else (False, fits)
                elif ab == ("max", "size"):
                    fits = not p
        return [(room, fits)] if (room, fits) != st else None

    def on_call(self, st, ctx, n, name, recv, args):
        room, fits = st
        if last(name) in ("insert", "emplace") and recv and self.fld(full(self.an, recv), "m_threads"):
            self.nins += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not room:
                self.report(ctx, "more:%s" % ctx.fn.short, "a worker is started without looking whether the limit on workers allows one more")
            return [(False, fits)]
        if name == "TaskState::exec":
            self.nexec += 1
            self.instances.add((ctx.fn.id, ctx.node))
            if not fits:
                self.report(ctx, "excess:%s" % ctx.fn.short, "a worker takes another task without looking whether there are more workers than allowed")
            return [(room, False)]
        return None


def limits(an, R):
    P = an.P
    R.rule("limit", "workers are started only below the limit, a worker above it takes no further task, and the limit stays between the configured minimum and maximum", 4)
    thr = {f.id for f, i, n in an.sites({"TaskState::exec"}, False)} | {f.id for fs in P.fns.values() for f in [fs] if any(
        m["k"] == "call" and last(short(m.get("n", ""))) in ("insert", "emplace") and "o" in m and (lambda s: s[0] == "f" and last(s[2]) == "m_threads")(P.sym(f, m["o"])) for m in (f.nodes[i] for i in f.live_nodes()))}
    todo = [P.fns[i] for i in sorted(thr)]
    nins = nex = 0
    for f in todo:
        if f.id not in an.reach and not f.is_lambda:
            continue
        top = an.owner_of(f) if f.is_lambda else f
        if top.cls and last(top.cls) == "TaskState" or top.short.startswith(("TaskState::", "Task::")):
            continue
        a, e = run(an, top, lambda: Limit(an), R)
        nins += a.nins
        nex += a.nexec
        if report_all(an, R, top, a):
            R.ok("limit in %s" % top.short, top)
    for f in P.by_short.get("TaskMasterState::calculate_thread_count_nolock", []):
        if not f.blocks:
            continue
        for i in f.live_nodes():
            n = f.nodes[i]
            if n["k"] != "ret" or n["s"] is None or n["s"] < 0:
                continue
            s = P.sym(f, n["s"])
            w = an.where(f, i)
            fld = lambda nm: (lambda x: x[0] == "f" and last(x[2]) == nm)
            if fld("m_configured_thread_max")(s) or konst(s) == 0:
                R.ok("the configured count", f)
                continue
            if not has(s, fld("m_thread_target")):
                continue
            mm = {k: [x for x in subs(s) if x[0] == "c" and last(x[1]) == k] for k in ("min", "max")}
            opaque = has(s, lambda x: x[:2] == ("o", "?:") or x[0] == "c" and last(x[1]) not in ("min", "max", "ceil", "floor", "round"))
            hi = any(fld("m_configured_thread_max")(a) for x in mm["min"] for a in x[3])
            lo = any(fld("m_thread_min")(a) for x in mm["max"] for a in x[3])
            R.check(hi or opaque, "the limit is at most the configured one", "over", w, "the dynamic number of workers is not kept below the configured maximum", f)
            R.check(lo or opaque, "the limit is at least the configured minimum", "under", w, "the dynamic number of workers is not kept above --thread-min", f)


def verbosity(an, R):
    """a message of level n is written when n is below the log level"""
    P = an.P
    R.rule("verbosity", "a log message is written exactly when its level is below the log level", 100)
    isg = lambda x: x[0] == "g" and last(x[1]) == "bees_log_level"

    def writes(f, bid):
        b = f.bmap.get(bid)
        if not b:
            return False
        for e in b["el"]:
            if isinstance(e, int):
                m = f.nodes[e]
                if m["k"] == "ctor" and short(m.get("n", "")) in ("Chatter", "Chatter::Chatter"):
                    return True
        return False
    for f in P.fns.values():
        if f.id not in an.reach and not f.is_lambda:
            continue
        n = 0
        for b in f.blocks:
            i = b.get("tc")
            if i is None or i < 0 or len(b["su"]) != 2:
                continue
            s = P.sym(f, i, None, 0, False)
            neg = False
            while s[0] == "not":
                s, neg = s[1], not neg
            if s[0] != "o" or len(s) != 4 or not (isg(s[2]) or isg(s[3])):
                continue
            k = konst(s[3] if isg(s[2]) else s[2])
            if k is None:
                continue
            ws = [writes(f, x) for x in b["su"]]
            if ws[0] == ws[1]:
                continue
            pol = ws[0] != neg      # the message is written when the comparison s is true
            if pol and s[1] == "<" and isg(s[3]) and 0 <= k <= 7:
                n += 1
            else:
                R.bad("level:%s" % f.short, an.where(f, i), "a message is written by another test than its level being below the log level", fn=f)
        for j in range(n):
            R.ok("log test in %s" % f.short, f)

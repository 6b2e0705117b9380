import importlib
import os
import sys
import time
import traceback


def main(argv):
    from . import facts as F
    if argv and argv[0] == "--setup":
        try:
            F.build_exporter()
            F.export(F.REPO)
            print("setup: exporter built, facts exported")
            return 0
        except F.AnalysisBroken as e:
            print("ANALYSIS-BROKEN: %s" % e)
            return 2
    from . import registry
    if argv and argv[0] == "--list":
        for p in sorted(registry.PROPS):
            print(p, registry.PROPS[p][0])
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    for a in argv:
        if a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        elif a == "--all":
            ids += sorted(registry.PROPS)
        else:
            ids.append(a)
    from .model import Program
    from .common import An
    from .report import finish, Result
    rc = 0
    an = None
    for pid in ids:
        t0 = time.time()
        if pid not in registry.PROPS:
            print("no such property %s" % pid)
            return 2
        try:
            if an is None:
                an = An(Program(F.export(F.REPO)), tier)
            title, modname, fname = registry.PROPS[pid]
            mod = importlib.import_module("." + modname, __package__)
            res = Result(pid)
            assumptions = getattr(mod, fname)(an, res) or []
            r = finish(res, pid, tier, t0, registry.LEVEL.get(pid, "proof"), registry.TRUSTED, registry.ASSUME + list(assumptions))
        except F.AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
            r = 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s: internal error" % pid)
            r = 2
        if len(ids) > 1:
            print("%s -> %d (%.1fs)" % (pid, r, time.time() - t0))
        rc = max(rc, r)
    return rc


sys.exit(main(sys.argv[1:]))

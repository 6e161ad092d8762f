#!/usr/bin/env python3
"""Run one property check: check.py <ID> [--repo DIR] [--all]"""
import gc
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
gc.disable()

from sa.context import Context          # noqa: E402
from sa.project import AnalysisBroken   # noqa: E402
from sa.report import Report            # noqa: E402


def main(argv):
    repo = os.environ.get("HACHOIR_REPO", "/repo")
    args = [a for a in argv if not a.startswith("--")]
    if "--repo" in argv:
        repo = argv[argv.index("--repo") + 1]
        args.remove(repo)
    ids = args
    if "--all" in argv:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sa", "checks"))
                     if f[0] == "c" and f[1:3].isdigit())
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Context(repo)
    rc = 0
    for i in ids:
        mod = importlib.import_module("sa.checks." + i.lower())
        rep = Report(i, tier, seed)
        try:
            mod.run(ctx, rep)
            r = rep.finish()
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN: %s: %s" % (i, e))
            r = 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN: %s: internal error of the analysis" % i)
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""Entry point of every check:  python3 /verif/run.py C05 [--tier thorough]

exit 0: the property holds on everything analysed (listed known findings are
        printed as KNOWN-FINDING lines); 1: a violation not listed in
        known_findings.txt; 2: the analysis could not run (no verdict).
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore", category=SyntaxWarning)

from pcv import report  # noqa: E402
from pcv.program import Program  # noqa: E402


def main(argv):
    ids = [a for a in argv if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
        ids = [a for a in ids if a != tier]
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    rc = 0
    for pid in ids:
        rc = max(rc, one(pid, tier))
    return rc


def one(pid, tier):
    t0 = time.time()
    try:
        prog = Program()
        mod = importlib.import_module("checks." + pid.lower())
        ctx = report.Ctx(pid, tier, prog)
        mod.check(ctx)
        return ctx.finish(time.time() - t0)
    except report.NoVerdict as ex:
        print("NO-VERDICT property=%s %s" % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO-VERDICT property=%s internal error" % pid)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

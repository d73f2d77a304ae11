#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decides one property
   check.py --replay FILE                        re-executes a reported violation
   check.py --setup                              compiles what every check needs"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, run
from vlib.registry import PROPS, setup


def main(a):
    if a[:1] == ["--replay"]:
        return run.replay(a[1])
    if a[:1] == ["--setup"]:
        setup()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 2
    ctx = run.Ctx(a[0], "thorough" if tier == "thorough" else "quick", core.SEED)
    try:
        for f in PROPS[a[0]]:
            f(ctx)
        return ctx.finish()
    except core.CheckError as e:
        core.log("CHECK ERROR: %s" % e)
        return 2
    finally:
        ctx.work.done()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

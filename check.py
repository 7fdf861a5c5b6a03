#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property from the current source of /repo."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True


def main():
    import core
    import frontend
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if args == ["setup"]:
        frontend.build_tool()
        print("ready")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    ids = sorted(registry.CHECKS) if args == ["all"] else args
    rc = 0
    try:
        program = core.Program()
    except frontend.AnalysisError as x:
        print("error: " + str(x))
        return 2
    for pid in ids:
        c = core.Check(pid, tier, seed, program)
        for f in registry.CHECKS[pid]:
            try:
                f(c)
            except core.Broken as x:
                c.undecide("the rest of the analysis", str(x))
            except Exception as x:
                traceback.print_exc()
                c.undecide("the rest of the analysis", "%s: %s" % (type(x).__name__, x))
        r = c.finish()
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())

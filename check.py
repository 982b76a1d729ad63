#!/usr/bin/env python3
"""check.py Cxx : decides one property on /repo's working tree.
exit 0: held; exit 1: VIOLATION; exit 2: the check itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    import registry
    chk = vlib.Check(prop, registry.LEVEL.get(prop, "model_checking"))
    chk.assumptions = registry.ASSUME
    try:
        registry.CHECKS[prop](chk)
        return chk.finish()
    except Exception as e:
        traceback.print_exc()
        if chk.violations:      # a violation was established before the machinery failed
            return chk.finish()
        print("check %s gives no verdict: %s" % (prop, e))
        return 2


sys.exit(main())

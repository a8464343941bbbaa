#!/usr/bin/env python3
"""check.py PROPERTY - decide one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, checks


def main():
    prop = sys.argv[1]
    try:
        chk = vlib.Check(prop)
        checks.CHECKS[prop](chk)
        rc = chk.finish()
    except vlib.CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e), flush=True)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)


main()

#!/usr/bin/env python3
"""check.py ID: decide one property (VERIF_TIER, VERIF_SEED); check.py setup: compile what the checks need."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
import vh

def main():
    what = sys.argv[1]
    if what == "setup":
        vh.build_java()
        return 0
    import checks
    try:
        run = vh.Run(what)
        try:
            checks.CHECKS[what](run)
        except vh.CheckError as e:
            # what was found before counts all the same
            if not run.failures:
                raise
            print("the check did not finish: %s" % str(e)[:500])
        return run.finish()
    except vh.CheckError as e:
        print("ERROR of the check: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())

#!/usr/bin/env python3
"""check.py <property id>            run the check (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay <replay file>   run one recorded case again, verbosely"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402

if sys.argv[1] == "--replay":
    r = json.load(open(sys.argv[2]))
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(r["seed"]), r["tier"]
    sys.exit(driver.run_check(r["property"], r["module"], only=[r["fam"], r["idx"]], verbose=True))
if len(sys.argv) > 3:
    sys.exit(driver.run_check(sys.argv[1], only=[sys.argv[2], int(sys.argv[3])], verbose=True))
sys.exit(driver.run_check(sys.argv[1]))

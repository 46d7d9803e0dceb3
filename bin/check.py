#!/usr/bin/env python3
"""bin/check.py C07 [quick|thorough]     decide one property against /repo's working tree
bin/check.py --replay evidence/replay/C07_0/replay.json    run a counterexample on the real code again"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import driver
if sys.argv[1] == "--replay":
    sys.exit(driver.replay(sys.argv[2]))
sys.exit(driver.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]
check.py --setup              build the driver
check.py --replay <file>      run the scenarios of a replay file again and print every deviation"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, checks

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "--setup":
        sys.exit(core.setup())
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(prop, tier, checks.CHECKS[prop]))

#!/usr/bin/env python3
"""check.py <property id>: decide one property against /repo's working tree. See DESIGN.md."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def run():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + pid.lower())
    try:
        return vlib.main(pid, mod.run, tier, seed)
    except Exception as e:      # never report a tool failure as a violation
        import traceback
        traceback.print_exc()
        return 2

sys.exit(run())

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Ctx(prop, tier, seed)
    try:
        core.build_tools()
        mod = importlib.import_module("vf.props." + prop.lower())
        mod.run(c)
    except core.CheckError as e:
        c.error(str(e))
    except Exception:
        c.error(traceback.format_exc())
    sys.exit(c.finish())

main()

#!/usr/bin/env python3
"""check.py ID [quick|thorough]   -- decides one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import campaigns


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    s = Session(prop, tier, seed)
    try:
        level, assumptions = getattr(campaigns, prop)(s)
        rc = finish(s, level, assumptions)
    except ToolError as ex:
        print("TOOL-ERROR:", ex)
        for v in s.violations:
            print(f"VIOLATION property={prop} replay={v['replay']}")
        rc = 1 if s.violations else 2
        s.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()

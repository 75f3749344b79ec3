#!/usr/bin/env python3
"""check.py Cxx [--case ID]: runs the monitor of one property (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    m = importlib.import_module("props." + prop.lower())
    try:
        return m.main(prop, only)
    except common.Inconclusive as e:
        print("inconclusive: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

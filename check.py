#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    mod = importlib.import_module(prop)
    c = vlib.Check(prop, mod.__doc__ or "")
    c.tier = tier
    if tier == "thorough":
        c.samples = 12
        c.more, c.patience = 60, 20
    try:
        rc = mod.run(c)
        return c.finish(explanation=(mod.__doc__ or "").strip(), floor=getattr(mod, "FLOOR", 1)) if rc is None else rc
    except vlib.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        if c.viol:
            return c.finish(explanation=(mod.__doc__ or "").strip(), floor=0)
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 3


sys.exit(main())

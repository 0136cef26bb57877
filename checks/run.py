#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property. run.py replay <file>: runs what a violation recorded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import importlib, json, traceback
import build as B, vlib as V

MODULES = {"M": "c_dm", "M13": "c_spec", "H": "c_spec", "R": "c_spec", "G": "c_spec", "Y": "c_spec", "Y03": "c_dm", "Q": "c_spec"}


def main():
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        mod = importlib.import_module(MODULES.get(r["property"], MODULES.get(r["property"][0])))
        return mod.replay(r)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(MODULES.get(pid, MODULES.get(pid[0])))
    ctx = V.Ctx(pid, tier)
    mod.check(ctx)
    return ctx.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("the check did not work")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

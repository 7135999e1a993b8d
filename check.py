#!/usr/bin/env python3
"""check.py <property id>: decides one property for the tree in /repo."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2].lstrip("-")
    mod = importlib.import_module("checks." + pid.lower())
    V = vlib.Verdict(pid)
    try:
        with vlib.Scratch() as s:
            mod.check(V, s.dir)
        return V.finish()
    except vlib.Machinery as e:
        if V.violations:     # what was found before the machinery gave in still counts
            return V.finish()
        print("MACHINERY: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

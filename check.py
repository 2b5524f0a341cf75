#!/usr/bin/env python3
"""check.py PROPERTY: decide one property against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common, importlib

REG = {}
for m in ("game_checks", "metrics_checks", "solver_checks", "video_checks", "binding_checks"):
    REG.update(importlib.import_module(m).CHECKS)

if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--build":
        print(common.build())
        sys.exit(0)
    fn, assume = REG[prop]
    sys.exit(common.main(prop, fn, assume))

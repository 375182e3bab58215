#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's working tree."""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "props")]
sys.dont_write_bytecode = True
import vlib  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    vlib.main(pid, mod.explore)

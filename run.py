#!/usr/bin/env python3
"""Entry point of every check: run.py <property> [quick|thorough] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        code = core.replay(sys.argv[2])
    else:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        code = core.explore(sys.argv[1], tier, int(os.environ.get("VERIF_SEED") or 0))
    sys.stdout.flush()
    os._exit(code)

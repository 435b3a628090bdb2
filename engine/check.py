#!/usr/bin/env python3
"""usage: check.py PROPERTY [--thorough]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nk import core

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    m = importlib.import_module("rules." + pid.lower())
    return core.run(pid, m.check, m.META, tier)

if __name__ == "__main__": sys.exit(main())

#!/usr/bin/env python3
"""Usage: check.py <ID> [--thorough]   (exit 0: property held on everything analysed; exit 1: VIOLATION)"""
import sys, os, importlib
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
from spf import core

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    mod = importlib.import_module("spf.checks." + pid.lower())
    rc = core.run_check(pid, mod, tier)
    sys.stdout.flush()
    sys.exit(1 if rc else 0)

#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property from the source of /repo."""
import sys, os, importlib
if os.environ.get("PYTHONHASHSEED") != "0":      # deterministic set order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kdsa import report

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("kdsa.checks." + pid.lower())
    sys.exit(report.main(pid, mod.run))

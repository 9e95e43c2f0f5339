#!/usr/bin/env python3
"""Usage: check.py PROPERTY [thorough]. Decides a property from the current sources in /repo."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from sa import report, specs

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    procs = int(os.environ.get("SA_PROCS", "8"))
    sys.exit(report.run(specs.SPECS[pid], pid, "thorough" if tier == "thorough" else "quick", procs))

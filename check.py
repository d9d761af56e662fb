#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current sources (static analysis)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import report  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(report.main(prop, mod.run, os.environ.get("VERIF_TIER", "quick")))

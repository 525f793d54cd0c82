#!/usr/bin/env python3
"""Decide one property: run.py Cxx [--replay FILE]. Reads VERIF_SEED, VERIF_TIER, VERIF_REPO."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim.engine import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""setup_cmd: build the system-call shim and make sure that the simulator starts."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim.engine import build_shim  # noqa: E402

build_shim()
print('ok')

#!/usr/bin/env python3
"""python3 -B check.py P01 -- run one property's check (VERIF_TIER=quick|thorough)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
if len(sys.argv) > 2 and sys.argv[2] == "--thorough":
    os.environ["VERIF_TIER"] = "thorough"
import registry

sys.exit(registry.run(sys.argv[1]))

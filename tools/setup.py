#!/usr/bin/env python3
"""Checks that the tools the checks use are here; nothing needs building ahead of a check."""
import os
import shutil
import sys

need = ["node", "cargo", "/opt/veriftools/node/node_modules/.bin/tsc"]
missing = [n for n in need if not (shutil.which(n) or os.path.exists(n))]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("missing: " + ", ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)

#!/usr/bin/env python3
"""Builds all checks once (warms the object cache in build/; every check rebuilds what it needs itself)."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
rc = 0
for c in CHECKS:
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py"), c, "--build-only"])
    rc = rc or r.returncode
sys.exit(1 if rc else 0)

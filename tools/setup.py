#!/usr/bin/env python3
"""Builds every check once (each check rebuilds what changed in /repo when it runs)."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for i in sorted(CHECKS):
    for p in CHECKS[i]["parts"]:
        if subprocess.run([sys.executable, os.path.join(V, "tools/build.py"), p["src"], p.get("variant", "plain")]).returncode: sys.exit(1)

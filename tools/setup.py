#!/usr/bin/env python3
"""Checks the tools are present; every check builds what it needs itself."""
import os, shutil, subprocess, sys
ok = True
for t in ("java", "gcc", "g++", "ninja"):
    if not shutil.which(t):
        print("missing", t); ok = False
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j):
        print("missing", j); ok = False
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
sys.exit(0 if ok else 1)

#!/usr/bin/env python3
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(H), "lib"))
sys.path.insert(0, H)
import vf
pid = sys.argv[1]
try:
    m = importlib.import_module(pid.lower())
except Exception as e:
    print("CHECK ERROR", e, file=sys.stderr); raise
vf.main(pid, m.run, getattr(m, "LEVEL", "model_checking"))

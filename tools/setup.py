import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for p in ("debug", "release", "decl"):
    vlib.build_rt(p)
    print("built", p)

#!/usr/bin/env python3
"""setup_cmd: check that the toolchain is there and that the harness builds against /repo."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
os.makedirs(os.path.join(vlib.ROOT, "evidence"), exist_ok=True)
class C(vlib.Ctx): pass
c = vlib.Ctx("setup", "quick", 1)
c.build()
vlib.cleanup(c)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("setup ok")

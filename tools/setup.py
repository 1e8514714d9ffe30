#!/usr/bin/env python3
"""Nothing needs building ahead of a check; make sure the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
for t in ("gcc", "meson", "ninja", "java"):
    r = subprocess.run(["which", t], env=build.env(), stdout=subprocess.PIPE)
    if r.returncode:
        sys.exit("missing tool: " + t)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("ready")

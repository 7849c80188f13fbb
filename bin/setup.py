#!/usr/bin/env python3
"""Prebuilds the drivers and the TLC operator overrides (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
c = vlib.Check("setup")
c.numclass()
for lib in ("core", "full"):
    for f in sorted(os.listdir(vlib.V + "/harness")):
        if f.endswith(".cpp") and (lib == "full") == ("LIB=full" in open(f"{vlib.V}/harness/{f}").read(400)):
            c.build(f[:-4], lib)

#!/usr/bin/env python3
"""check.py <property id>: decides one property (see ../DESIGN.md).
Exit 0: held; 1: violated (a VIOLATION line names the replay file); 2: the
machinery itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks
pid = sys.argv[1]
try:
    c = vlib.Check(pid)
    checks.CHECKS[pid](c)
except vlib.CheckError as e:
    print(f"check {pid} could not decide: {e}")
    if not c.violated():
        sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
c.finish()

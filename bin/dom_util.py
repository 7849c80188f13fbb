from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
WORLD = lambda e: e["k"] == "world"
def c20(c):
    d = c.build("util", "full")
    t = c.drive(d, [6000 if THOROUGH else 600, 0]); c.validate("UtilitiesTrace", t, split=WORLD)
    c.selftest("UtilitiesTrace", t, lambda e: {**e, "whole": repr(float(e["whole"]) * 1.01 + 1)} if e["k"] == "track" else None, split=WORLD)
    t = c.drive(d, [1200 if THOROUGH else 100, 1]); c.validate("UtilitiesTrace", t, split=WORLD)
CHECKS = {"C20": c20}

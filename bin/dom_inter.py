from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
WORLD = lambda e: e["k"] == "world"
def c21(c):
    d = c.build("inter", "full")
    t = c.drive(d, [c.gen_file("InteractionsGen", G), 6000 if THOROUGH else 400]); c.validate("InteractionsTrace", t, split=WORLD)
    def bad(e):
        if e["k"] == "sample" and e["calls"]: return {**e, "v": repr(float(e["v"]) + .5)}
    c.selftest("InteractionsTrace", t, bad, split=WORLD)
CHECKS = {"C21": c21}

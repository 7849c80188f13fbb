from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c22(c):
    d = c.build("second", "full")
    c.validate("SecondariesTrace", c.drive(d, ["script", c.gen_file("SecondariesGen", G)]))
    t = c.drive(d, ["random", 60 if THOROUGH else 8]); c.validate("SecondariesTrace", t, chunks=8)
    c.selftest("SecondariesTrace", t, lambda e: {**e, "out": [{**o, "E": repr(1.001 * float(o["E"]))} for o in e["out"]]} if e["k"] == "sec" else None)
CHECKS = {"C22": c22}

from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c17(c):
    d = c.build("xs", "full")
    t = c.drive(d, [200 if THOROUGH else 14]); c.validate("CrossSectionsTrace", t)
    c.selftest("CrossSectionsTrace", t, lambda e: {**e, "lim": [e["lim"][0], "0.3"]} if e["k"] == "ds" else None)
def c16(c):
    d = c.build("xsint", "full"); n = 6 if THOROUGH else 1
    t = c.drive(d, [n]); c.validate("RatesTrace", t, chunks=8)
    c.selftest("RatesTrace", t, lambda e: {**e, "dE": e["dE"][:-1] + "7", "N": repr(1.02 * float(e["N"]))})
    c.validate("RatesTrace", c.drive(d, [n, "t"]), chunks=8)
    c.validate("RatesTrace", c.drive(d, [400 * n, "d"]))
CHECKS = {"C16": c16, "C17": c17}

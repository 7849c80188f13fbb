from vlib import THOROUGH

def rays(c, which):
    d = c.build("geo")
    gen = c.gen_file("GeometryGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    n = (400000, 200000, 30000) if THOROUGH else (60000, 30000, 4000)
    for args in (["lattice", gen, n[0]], ["random", n[1]], ["walk", n[2]]):
        t = c.drive(d, args)
        import os
        os.environ["GEO"] = which
        c.validate("GeometryTrace", t)

def c01(c): rays(c, "dist")
def c02(c): rays(c, "loc")
CHECKS = {"C01": c01, "C02": c02}

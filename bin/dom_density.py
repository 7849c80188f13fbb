from vlib import THOROUGH
def c14(c):
    d = c.build("dens")
    gen = c.gen_file("DensityGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    t = c.drive(d, ["lattice", gen]); c.validate("DensityTrace", t)
    t = c.drive(d, ["random", 60000 if THOROUGH else 6000]); c.validate("DensityTrace", t)
CHECKS = {"C14": c14}

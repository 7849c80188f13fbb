from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c23(c):
    d = c.build("scat", "full")
    t = c.drive(d, [c.gen_file("ScatteringGen", G), 6000 if THOROUGH else 500]); c.validate("ScatteringTrace", t)
    c.selftest("ScatteringTrace", t, lambda e: {**e, "final": ["1", "0", "0"]} if e["k"] == "dir" else None)
CHECKS = {"C23": c23}

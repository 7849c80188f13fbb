from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c18(c):
    d = c.build("integ")
    gen = c.gen_file("IntegralGen", G)
    new = lambda e: e["e"] == "new" and e["o"] == 1
    t = c.drive(d, ["behaviours", gen]); c.validate("IntegralTrace", t, split=new)
    t2 = c.drive(d, ["random", 20000 if THOROUGH else 1500]); c.validate("IntegralTrace", t2, split=new)
    c.selftest("IntegralTrace", t, lambda e: {**e, "r": "1.2345"} if e["e"] == "up" else None, split=new)
def c19(c):
    d = c.build("math")
    t = c.drive(d, ["random", 12000 if THOROUGH else 1200]); c.validate("MathsTrace", t)
    c.selftest("MathsTrace", t, lambda e: {**e, "r": "0.123"} if e["e"] == "dilog" else None)
CHECKS = {"C18": c18, "C19": c19}

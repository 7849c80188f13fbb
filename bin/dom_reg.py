from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
START = lambda e: e["k"] == "start"
def c12(c):
    d = c.build("reg")
    for k in range(5):
        t = c.drive(d, ["virgin", k]); c.validate("RegistriesTrace", t)
    t = c.drive(d, ["script", c.gen_file("RegistriesGen", G)]); c.validate("RegistriesTrace", t, split=START)
    t = c.drive(d, ["random", 3000 if THOROUGH else 300]); c.validate("RegistriesTrace", t, split=START)
    def bad(e):
        if e["k"] == "medhash" and not e["thrown"]: return {**e, "got": {**e["got"], "rho": "123"}}
    c.selftest("RegistriesTrace", t, bad, split=START)
CHECKS = {"C12": c12}

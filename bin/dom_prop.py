from vlib import THOROUGH
SPLIT = lambda e: e["e"] == "world"
RUN = lambda e: e["e"] == "run"
MC = "CONSTANT Steps = {}\nCONSTANT Share = {}\nCONSTANT Shares = {}\n{}\nCHECK_DEADLOCK FALSE\n"
INV = "".join("INVARIANT %s\n" % i for i in ("NeverGains", "Straight", "Within", "OneDecay", "InSector", "NoHigherSkipped"))
def bad(e):
    if e["e"] == "iter" and len(e["pts"]) == 1:
        q = dict(e["pts"][0]); q["E"] = repr(float(q["E"]) * .9)
        return {**e, "pts": [q]}
def c06(c):
    d = c.build("prop", "full")
    n = 3 if THOROUGH else 2
    c.model("PropMC", MC.format(n + 1, 0, 1, "SPECIFICATION Fair\nPROPERTY Terminates\n" + INV))
    gen = c.generate("PropMC", MC.format(n, 0, 1, "INIT MCInit\nNEXT MCNext\nINVARIANT Behaviour"))
    t = c.drive(d, ["script", gen]); c.validate("PropTrace", t, split=SPLIT)
    c.selftest("PropTrace", t, bad, split=SPLIT)
    t = c.drive(d, ["random", 4000 if THOROUGH else 250]); c.validate("PropTrace", t, split=SPLIT)
CHECKS = {"C06": c06}
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
WORLD = lambda e: e["e"] == "world"
def other(e):
    if e["e"] == "at": return {**e, "got": 1 + e["got"] % 3, "thrown": ""} if e["got"] else {**e, "got": 1, "thrown": ""}
def c07(c):
    d = c.build("sect", "full")
    t = c.drive(d, ["at", c.gen_file("SectorGen", G)]); c.validate("SectorTrace", t, split=WORLD)
    c.selftest("SectorTrace", t, other, split=WORLD)
    t = c.drive_many(d, ["process", c.gen_file("ProcessGen", G)]); c.validate("SectorTrace", t)
    t = c.drive_many(d, ["config", c.gen_file("ConfigGen", G)]); c.validate("SectorTrace", t)
CHECKS["C07"] = c07

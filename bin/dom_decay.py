from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
WORLD = lambda e: e["e"] == "world"
def c08(c):
    d = c.build("decay")
    t = c.drive(d, ["tables", c.gen_file("DecayTableGen", G), 10000 if THOROUGH else 300]); c.validate("DecayTrace", t, split=WORLD)
    def bad(e):
        if e["e"] == "table" and e["op"]["k"] == "add": return {**e, "eq": [[not x for x in r] for r in e["eq"]]}
    c.selftest("DecayTrace", t, bad, split=WORLD)
def c09(c):
    d = c.build("decay")
    t = c.drive_many(d, ["decays", 2000 if THOROUGH else 40]); c.validate("DecayTrace", t, keyf=lambda e, *a: e["e"] + "-" + e.get("kind", ""))
    def bad(e):
        if e["e"] == "decay" and e["products"]:
            q = dict(e["products"][-1]); q["E"] = repr(float(q["E"]) + 1e-4 * float(e["parent"]["E"]))
            return {**e, "products": e["products"][:-1] + [q]}
    c.selftest("DecayTrace", t, bad)
CHECKS = {"C08": c08, "C09": c09}

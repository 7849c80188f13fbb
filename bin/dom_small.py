from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c10(c):
    d = c.build("cuts")
    t = c.drive(d, [c.gen_file("CutsGen", G), 4000 if THOROUGH else 300]); c.validate("CutsTrace", t)
    def bad(e):
        if e["e"] == "cut" and not e["thrown"] and e["cuts"]:
            q = dict(e["cuts"][0]); q["r"] = repr(float(q["r"]) * 1.001); return {**e, "cuts": [q]}
    c.selftest("CutsTrace", t, bad)
RMC = 'CONSTANTS Depth = {} Seeds = {{"1", "7"}} Slots = {{1}} Owns = {{1}}\nINIT MCInit\nNEXT MCNext\nCHECK_DEADLOCK FALSE\n'
FRESH = lambda e: e["k"] == "fresh"
def c11(c):
    d = c.build("rnd", "full"); n = 6 if THOROUGH else 5
    c.model("RandomSourceMC", RMC.format(n - 1) + "PROPERTY OwnLeavesEngine\nPROPERTY EngineLeavesOwn\nPROPERTY SavedStays\n")
    t = c.drive(d, [c.generate("RandomSourceMC", RMC.format(n - 1) + "INVARIANT Out\n"), 3000 if THOROUGH else 300])
    c.validate("RandomSourceTrace", t, split=FRESH)
    def bad(e):
        if e["k"] == "draw" and isinstance(e["v"][0], str): return {**e, "v": ["1.5"] + e["v"][1:]}
    c.selftest("RandomSourceTrace", t, bad, split=FRESH)
LMC = "CONSTANTS Depth = {} Names = {{1, 2}} Levels = {{1, 3, 6}}\nINIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n"
NEW = lambda e: e["op"]["k"] == "new"
def c28(c):
    d = c.build("logg")
    c.model("LoggersGen", LMC.format(4) + "PROPERTY Stays\nINVARIANT OnlySetLevels\n")
    t = c.drive(d, [c.generate("LoggersGen", LMC.format(4 if THOROUGH else 3) + "INVARIANT Out\n"), 3000 if THOROUGH else 200])
    c.validate("LoggersTrace", t, split=NEW)
    def bad(e):
        if e["op"]["k"] == "all" and e["state"]: return {**e, "state": [{**e["state"][0], "v": (e["op"]["v"] + 1) % 7}] + e["state"][1:]}
    c.selftest("LoggersTrace", t, bad, split=NEW)
CHECKS = {"C10": c10, "C11": c11, "C28": c28}

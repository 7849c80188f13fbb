from vlib import THOROUGH
START = lambda e: e["k"] == "start"
MC = "CONSTANT Depth = {}\nINIT MCInit\nNEXT MCNext\nCHECK_DEADLOCK FALSE\n"
def c13(c):
    d = c.build("objs", "full")
    c.model("ObjectsMC", MC.format(4) + "INVARIANT CopiesAreEqual\nINVARIANT EqualOrDifferent\nPROPERTY OneAtATime\n")
    g = c.generate("ObjectsMC", MC.format(4) + "INVARIANT Out\n")
    t = c.drive(d, ["script", g, "all" if THOROUGH else "turns"]); c.validate("ObjectsTrace", t, split=START)
    t = c.drive(d, ["random", 20000 if THOROUGH else 2500]); c.validate("ObjectsTrace", t, split=START)
    c.selftest("ObjectsTrace", t, lambda e: {**e, "eq": [{**q, "eq": not q["eq"], "ne": q["eq"]} for q in e["eq"]]} if e["k"] == "make" and e["eq"] else None, split=START)
CHECKS = {"C13": c13}

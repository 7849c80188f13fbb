from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Length = {}\n"
MC = "CONSTANTS Nodes = {} Places = {}\nINIT Init\nNEXT Next\nINVARIANTS WindowsFit Surrounds Reproduces Straight Exact Inverts\nCHECK_DEADLOCK FALSE\n"
def c27(c):
    n = 6 if THOROUGH else 5
    c.model("InterpolationMC", MC.format(n, 4 * n + 8))
    d = c.build("interp", "core")
    h = c.gen_file("InterpolationGen", G.format(3 if THOROUGH else 2))
    t = c.drive(d, [h, "6" if THOROUGH else "8"])
    c.validate("InterpolationTrace", t, chunks=8)
    def spoil(e):
        if e["k"] == "tab" and e["qs"]:
            q = dict(e["qs"][0]); q["got"] = repr(float(q["got"]) * 1.001 + 1e-3 * float(e["scale"])); return {**e, "qs": [q] + e["qs"][1:]}
        if e["k"] == "bad": return {**e, "loaded": True}
    c.selftest("InterpolationTrace", t, spoil)
CHECKS = {"C27": c27}

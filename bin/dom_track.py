from vlib import THOROUGH
SPLIT = lambda e: e["e"] == "world"
MC = "CONSTANT Depth = {}\nINIT MCInit\nNEXT MCNext\nCHECK_DEADLOCK FALSE\nINVARIANT Sane\nINVARIANT {}\n"
INV = {"state": "FoundEnergy\nINVARIANT FoundDistance\nINVARIANT BetweenEnergy\nINVARIANT MonotoneDistance", "losses": "Balance", "geo": "Balance"}
def bad(part):
    def f(e):
        if part == "state" and e["e"] == "distance":
            return {**e, "r": {**e["r"], "t": "1"}}
        if part == "losses" and e["e"] == "losses" and e["stoch"]:
            return {**e, "stoch": e["stoch"][1:]}
        if part == "geo" and e["e"] == "geo" and e["hit"] and float(e["elost"]) > 1:
            return {**e, "hit": False}
    return f
def track(part, n, depth):
    def f(c):
        d = c.build("track", "full")
        c.model("TrackMC", MC.format(depth + (2 if THOROUGH else 1), INV[part]))
        gen = c.generate("TrackMC", MC.format(depth + (1 if THOROUGH else 0), "Behaviour"))
        t = c.drive(d, ["script", gen, part]); c.validate("TrackTrace", t, split=SPLIT)
        c.selftest("TrackTrace", t, bad(part), split=SPLIT)
        t = c.drive(d, ["random", n * (12 if THOROUGH else 1), part]); c.validate("TrackTrace", t, split=SPLIT)
    return f
CHECKS = {"C03": track("state", 150, 3), "C04": track("losses", 150, 3), "C05": track("geo", 150, 2)}

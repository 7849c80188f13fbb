from vlib import THOROUGH
MC = "CONSTANTS Fields = {{{}}} Values = {{0, 1}}\nINIT Init\nNEXT Next\nINVARIANTS KeyedByAll Needed Found Shared\nCHECK_DEADLOCK FALSE\n"
def c26(c):
    c.model("KeysMC", MC.format('"a", "b", "c"' if THOROUGH else '"a", "b"'))
    d = c.build("keys", "full")
    h = c.gen_file("KeysGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Length = {}\n".format(2 if THOROUGH else 1))
    # two processes: keys must be the same in both
    ts = [c.drive(d, [h, r]) for r in (1, 2)]
    with open(ts[0], "a") as o: o.write(open(ts[1]).read())
    c.validate("KeysTrace", ts[0], chunks=1)
    c.selftest("KeysTrace", ts[0], lambda e: {**e, "got": e["got"][:-1] + ["1"]} if e["k"] == "ask" else None)
CHECKS = {"C26": c26}

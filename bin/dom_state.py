from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
def c24(c):
    d = c.build("vec")
    t = c.drive(d, ["lattice", c.gen_file("VectorsGen", G)]); c.validate("VectorsTrace", t)
    t = c.drive(d, ["random", 20000 if THOROUGH else 1200]); c.validate("VectorsTrace", t)
    c.selftest("VectorsTrace", t, lambda e: {**e, "r": ["1", "0", "0"]} if e["e"] == "deflect" else None)
def with_world(trace, start, every=400):
    """repeats the last world before every so many cases, so that the trace can be split there"""
    import json
    out, world, n = [], None, 0
    for l in open(trace):
        e = json.loads(l)
        if e["e"] == "world":
            world, n = l, 0
        elif e["e"] == start and n >= every:
            out.append(world); n = 0
        n += 1
        out.append(l)
    open(trace, "w").writelines(out)
    return trace
CHECKS = {"C24": c24}

def c25(c):
    d = c.build("pstate"); new = lambda e: e["e"] in ("world",)
    t = c.drive(d, ["script", c.gen_file("ParticleStatesGen", G)]); c.validate("ParticleStatesTrace", with_world(t, "new"), split=new)
    c.selftest("ParticleStatesTrace", t, lambda e: {**e, "eq": [[not x for x in r] for r in e["eq"]]} if e["e"] == "op" else None, split=new)
    t = c.drive(d, ["random", 4000 if THOROUGH else 300]); c.validate("ParticleStatesTrace", with_world(t, "new"), split=new)
CHECKS["C25"] = c25

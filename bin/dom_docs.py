from vlib import THOROUGH
G = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Deep = {}\n"
MC = "CONSTANT Changes = {}\nINIT Init\nNEXT Next\nINVARIANTS DefaultsHold OthersIgnored BasesMean NullRefused\nCHECK_DEADLOCK FALSE\n"
def c15(c):
    c.model("DocumentsMC", MC.format(3 if THOROUGH else 1))
    d = c.build("docs", "full")
    docs = c.gen_file("DocumentsGen", G.format("TRUE" if THOROUGH else "FALSE"))
    t = c.drive(d, [docs, "plain"]); c.validate("DocumentsTrace", t, chunks=8)
    s = c.drive(d, [docs, "scaled"]); c.validate("DocumentsTrace", s, chunks=8)
    c.selftest("DocumentsTrace", t, lambda e: {**e, "same": False} if e["thrown"] == "" else {**e, "thrown": "", "got": [], "at": [], "rates": []})
CHECKS = {"C15": c15}

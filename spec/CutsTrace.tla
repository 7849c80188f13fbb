------------------------------ MODULE CutsTrace ------------------------------
EXTENDS TraceBase, Cuts
VARIABLE l
vars == l
TraceInit == l = 1
Values(e, c) == /\ \A i \in 1..Len(e.cuts) : NClose(e.cuts[i].r, Cut(c, e.cuts[i].E), "1e-15", 0)
                /\ \A i \in 1..Len(e.lims) : NClose(e.lims[i].r, CutIn(c, e.lims[i].lim, e.lims[i].E), "1e-15", 0)
                /\ NEq(e.got.ecut, c.ecut) /\ NEq(e.got.vcut, c.vcut) /\ e.got.cont = c.cont
Ok(e) == CASE e.e = "cut" -> IF Valid(e.ecut, e.vcut) THEN e.thrown = "" /\ Values(e, e) ELSE e.thrown = "invalid_argument"
           [] e.e = "doc" -> IF Readable(e, e.low) THEN e.thrown = "" /\ Values(e, Read(e)) ELSE e.thrown # ""
           [] e.e = "pair" -> /\ e.eq = Same(e.a, e.b) /\ e.qe = e.eq /\ (e.hash = SameHash(e.a, e.b))
           [] e.e = "copy" -> Values(e, e.of) /\ e.eq /\ e.kept
TraceNext == /\ l <= TraceLen
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
=============================================================================

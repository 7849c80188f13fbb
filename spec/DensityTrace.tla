---------------------------- MODULE DensityTrace ----------------------------
EXTENDS Density, TraceBase
VARIABLE l
Ok(e) == CASE e.e = "grammage" -> GrammageOk(e)
           [] e.e = "correct"  -> CorrectOk(e)
           [] e.e = "local"    -> LocalOk(e)
           [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

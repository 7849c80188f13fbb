---------------------------- MODULE VectorsTrace ----------------------------
EXTENDS Vectors, TraceBase
VARIABLE l
Ok(e) == CASE e.e = "conv"    -> ConvOk(e)
           [] e.e = "sph"     -> SphOk(e)
           [] e.e = "algebra" -> AlgebraOk(e)
           [] e.e = "deflect" -> DeflectOk(e)
           [] e.e = "set"     -> SetOk(e)
           [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

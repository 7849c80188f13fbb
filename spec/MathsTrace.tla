----------------------------- MODULE MathsTrace -----------------------------
EXTENDS Maths, TraceBase
VARIABLE l
Ok(e) == CASE e.e = "newton"  -> NewtonOk(e)
           [] e.e = "bisect"  -> BisectOk(e)
           [] e.e = "poly"    -> PolyOk(e)
           [] e.e = "spline"  -> SplineOk(e)
           [] e.e = "coeff"   -> CoeffOk(e)
           [] e.e = "ppf"     -> PpfOk(e)
           [] e.e = "gauss"   -> GaussOk(e)
           [] e.e = "expo"    -> ExpoOk(e)
           [] e.e = "dilog"   -> DilogOk(e)
           [] e.e = "welford" -> WelfordOk(e)
           [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

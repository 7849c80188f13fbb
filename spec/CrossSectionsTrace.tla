------------------------ MODULE CrossSectionsTrace ------------------------
EXTENDS TraceBase, Lpm
VARIABLE l
vars == l
TraceInit == l = 1
(* ---------------------------------------- differential cross sections *)
\* (the screening of hydrogen and helium loses digits where hardly anything is screened)
Open(e) == NLt(e.lim[1], e.lim[2])
LimitsOk(e) == LET w == Limits(e) tol == LimTol(e) IN
  /\ NClose(e.lim[1], w[1], "1e-12", tol) /\ NClose(e.lim[2], w[2], "1e-12", tol)
  /\ NLe(0, e.lim[1]) /\ NLe(e.lim[1], e.lim[2]) /\ (Open(e) => NLe(e.lim[2], 1))
\* the value, as exactly as rounding of its arguments allows
Value(e, s) ==
  LET ee == [e EXCEPT !.E = NMul(e.E, "1.0000000000000004")]  ss == [s EXCEPT !.v = NMul(s.v, "1.0000000000000004")]
      sm == [s EXCEPT !.v = NMul(s.v, "0.9999999999999996")]
      f == Sigma(e, s)  tol == NAdd(NAbs(NSub(Sigma(ee, s), f)), NAdd(NAbs(NSub(Sigma(e, ss), f)), NAbs(NSub(Sigma(e, sm), f)))) IN
  Must(<<"value", s.v, NStr(f), s.ds, NStr(tol)>>, ~NFinite(f) \/ ~NFinite(tol) \/ NLe(NAbs(NSub(s.ds, f)), NAdd(NMul(NAbs(f), CASE e.kind = "compton" -> NAdd("1e-9", NMul("4e-16", NSq(NDiv(ME, e.E)))) [] e.name = "Tsai" /\ NLe(e.t.Z, "2.5") -> "1e-6" [] e.name = "AndreevBezrukovBugaev" -> "1e-7" [] OTHER -> "1e-9"), NMul(8, tol))))
\* at the limits themselves a formula may diverge
Sane(e, s) == /\ s.end \/ NFinite(s.ds)
              /\ Signed(e) \/ (s.end /\ NIsNaN(s.ds)) \/ NLe(0, s.ds)
\* a correction that does not depend on v (and has the sign of the formula where that is negative throughout)
Ratios(e) == [i \in {j \in 1..Len(e.s) : ~e.s[j].end /\ ~NEq(Sigma(e, e.s[j]), 0)} |-> NDiv(e.s[i].ds, Sigma(e, e.s[i]))]
CorrectedOk(e) == LET r == Ratios(e) IN \A i, j \in DOMAIN r : Must(<<"correction", NStr(r[i]), NStr(r[j])>>, NClose(r[i], r[j], "1e-6", 0) /\ NLt(0, NAbs(r[i])))
Suppressed(e, s) == NLe(0, s.ds) => NLe(s.ds, NMul(s.free, "1.05"))
DsOk(e) ==
  /\ NEq(e.low, LowE(e)) \/ NClose(e.low, LowE(e), "1e-14", 0)
  /\ NLt(e.E, e.low) \/
     (/\ LimitsOk(e)
      /\ \A i \in 1..Len(e.s) : Sane(e, e.s[i])
      /\ IF ~Explicit(e) \/ NLe(e.E, NMul(e.low, "1.0000001")) THEN TRUE
         ELSE IF Corrected(e) THEN CorrectedOk(e)
         ELSE \A i \in 1..Len(e.s) : e.s[i].end \/ Value(e, e.s[i])
      /\ e.lpm => \A i \in 1..Len(e.s) : e.s[i].end \/ Suppressed(e, e.s[i]))
\* (-1: between the points of a table)
NucleonOk(e) == LET w == Nucleon(e.name, e.E, e.t) IN
  IF NEq(w, -1) THEN NFinite(e.s) /\ NLe(0, e.s) /\ NLt(e.s, 700) ELSE Must(<<"nucleon", e.name, NStr(w), e.s>>, NClose(e.s, w, IF e.name \in {"Heck", "Rhode"} THEN "1e-9" ELSE "1e-12", 0))
\* the code's own open integration over the asymmetry stops at a precision of some per mille
PairOk(e) == LET w == PairDs(e, e.v, 12) IN
  Must(<<"pair", e.kind, e.name, NStr(w), NStr(e.ds)>>, NFinite(w) => NClose(e.ds, w, IF e.kind = "mupair" THEN "5e-3" ELSE "2e-3", 0))
\* the integrand where the photon can be, and the integral
Q2Ok(e) == LET w == Q2Ds(e, e.v, 24) IN
  /\ \A i \in 1..Len(e.s) : LET f == OfQ2(e, e.v, e.s[i][1]) IN Must(<<"Q2", e.name, e.shadow, NStr(f), i>>, NFinite(f) => NClose(e.s[i][2], f, "1e-8", 0))
  /\ Must(<<"integral", e.name, e.shadow, NStr(w), NStr(e.ds)>>, NFinite(w) => NClose(e.ds, w, "2e-3", 0))
\* every nucleon is hit for itself: p and d are the cross sections (per grammage) of protons and of deuterons
WeakOk(e) == LET n == NSub(NMul(2, e.d), e.p)  w == NDiv(NAdd(NMul(e.t.Z, e.p), NMul(NSub(e.t.A, e.t.Z), n)), e.t.A) IN
  Must(<<"weak", NStr(w), e.ds>>, NLe(0, e.ds) /\ (NGt(e.p, 0) /\ NGt(e.d, 0) => NClose(e.ds, Max0(w), "1e-9", NMul("1e-12", e.p))))
LpmOk(e) ==
  IF e.kind = "epair"
  THEN LET w == NDiv(NMul(e.free, PairLpmDs(e, e.v, 12)), PairDs(e, e.v, 12))
           \* what is left of the digits in the difference of the arc tangents
           x == Xi(e.m, ME, e.v, 0)  noise == NMul("1e-15", NMul(NSq(x), NSqrt(NDiv(PairLpmEnergy(e), NMul(NMul(e.dc, e.E), e.v))))) IN
       Must(<<"lpm", e.kind, e.name, NStr(w), e.ds, e.free, NStr(noise)>>, NFinite(w) => NClose(e.ds, w, NAdd("2e-3", noise), 0))
  ELSE LET el == LpmEnergy(e, IF e.kind = "brems" THEN e.m ELSE ME) IN
       \A i \in 1..Len(e.s) : LET x == e.s[i]  f == Photon(e, x.v, el)  w == NMul(x.free, f) IN
         Must(<<"lpm", e.kind, e.name, i, NStr(f), NStr(w), x.ds>>, NFinite(w) => NClose(x.ds, w, "2e-4", 0))
Ok(e) == CASE e.k = "ds" -> DsOk(e)
           [] e.k = "nucleon" -> NucleonOk(e)
           [] e.k = "pair" -> PairOk(e)
           [] e.k = "weak" -> WeakOk(e)
           [] e.k = "lpm" -> LpmOk(e)
           [] e.k = "q2" -> Q2Ok(e)
TraceNext == /\ l <= TraceLen
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
=============================================================================

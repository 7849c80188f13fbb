---------------------------- MODULE RatesTrace ----------------------------
EXTENDS TraceBase, Rates
VARIABLE l
vars == l
TraceInit == l = 1
At(e, t) == [kind |-> e.kind, name |-> e.name, m |-> e.m, q |-> e.q, E |-> e.E, t |-> t]
Near(x, w, rel, abs) == NClose(x, w, rel, abs) \/ (~NFinite(w) /\ ~NFinite(x))
\* just above the energy where losses above the cut become possible a table cannot follow
Steep(e, t, c) == e.table /\ NLt(t.lim[2], NMul(3, c))
\* accuracy of the integrals; of tables
Acc(e) == IF e.table THEN "5e-2" ELSE IF e.kind = "photomupair" THEN "2e-2" ELSE "5e-3"
W(e, i) == IF e.kind = "ioniz" THEN e.mult ELSE NMul(e.mult, Weight(e.w, i))
\* brems, no cut: as many soft photons as one likes
Endless(e, t) == NEq(t.lim[1], 0) /\ e.cut = << >> /\ e.kind \in {"brems", "ioniz"}
LossOk(e, t, c, sc, s) == IF e.kind \in {"photopair", "photomupair", "weak"} THEN NEq(s[2], 1) ELSE
                      /\ NLe(NMul(c, "0.999999999"), s[2]) /\ NLe(s[2], NMul(t.lim[2], "1.000000001"))
                      /\ NClose(s[3], NMul(s[1], t.N), 0, NMul(IF e.table THEN "5e-2" ELSE "2e-3", sc))
TargetOk(e, i) ==
  LET t == e.T[i]  lim == Limits(At(e, t))  c == CutAt(e.cut, t.lim, e.E)  w == W(e, i)  sc == IF e.kind = "real" THEN NMul(w, Scale(t.above)) ELSE NAbs(t.N)  tol == LimTol(At(e, t)) IN
  /\ Must("limits", NClose(t.lim[1], lim[1], "1e-12", tol) /\ NClose(t.lim[2], lim[2], "1e-12", tol))
  /\ Must("below", e.cut # << >> => Chain(t.below, t.lim[1], c))
  /\ IF ~Stochastic(e.cut) THEN Must("no losses", NEq(t.N, 0) /\ NEq(t.at[2], 0))
     ELSE IF ~NLt(c, t.lim[2]) THEN Must("nothing above", NEq(t.N, 0))
     ELSE /\ Must("above", Chain(t.above, c, t.lim[2]))
          /\ Endless(e, t) \/ Steep(e, t, c) \/ (/\ Must(<<"rate", t.N, NStr(NMul(w, Moment(t.above, 0)))>>, Near(t.N, NMul(w, Moment(t.above, 0)), Acc(e), NMul(sc, "1e-3")))
                               /\ Must("part", Chain(t.part, c, t.at[1]))
                               /\ Must(<<"cumulative", t.at[2], NStr(NMul(w, Moment(t.part, 0))), t.N>>, NClose(t.at[2], NMul(w, Moment(t.part, 0)), IF e.table THEN "1e-1" ELSE "1e-2", NMul(sc, IF e.table THEN "3e-2" ELSE "2e-3")))
                               /\ \A j \in 1..Len(t.loss) : Must(<<"loss", t.loss[j]>>, LossOk(e, t, c, sc, t.loss[j])))
          /\ Must("per target", NClose(t.per, t.N, "1e-12", 0) /\ t.seen = 1)
Soft(e, p) == LET s(i) == IF e.kind = "ioniz" /\ p = 1 THEN LET t == e.T[i] IN
                                 NDiv(NAdd(Restricted(e, t, CutAt(e.cut, t.lim, e.E), t.lim[2]),
                                           IF e.name = "BetheBlochRossi" THEN NMul(e.E, Radiative(e, t, t.lim[2], t.below)) ELSE 0), e.E)
                                 ELSE Moment(e.T[i].below, p) IN
  NSum([i \in 1..Len(e.T) |-> NMul(NMul(W(e, i), s(i)), NPow(e.E, p))])
IntOk(e) ==
  /\ \A i \in 1..Len(e.T) : TargetOk(e, i)
  /\ Must("targets", e.targets = Len(e.T) \/ (~Stochastic(e.cut) /\ e.targets = 0))
  /\ Must("sum", NClose(e.N, NSum([i \in 1..Len(e.T) |-> e.T[i].N]), "1e-12", 0))
  /\ IF e.cut = << >> THEN NEq(e.dE, 0) /\ NEq(e.dE2, 0)
     ELSE /\ Must(<<"dE", e.dE, NStr(Soft(e, 1))>>, NClose(e.dE, Soft(e, 1), Acc(e), 0))
          /\ Must(<<"dE2", e.dE2, IF e.cut[1].rand THEN NStr(Soft(e, 2)) ELSE 0>>, IF e.cut[1].rand THEN NClose(e.dE2, Soft(e, 2), Acc(e), 0) ELSE NEq(e.dE2, 0))
DirectOk(e) ==
  LET r(i) == DirectRate(e.name, e.E, e.comp, i)  n == Len(e.comp) IN
  /\ e.refused = (e.name \in {"Heitler", "Sauter"}) /\ NEq(e.dE, 0) /\ NEq(e.dE2, 0) /\ e.targets = n
  /\ \A i \in 1..n : LET c == e.comp[i]  w == NMul(e.mult, r(i)) IN
       /\ Must(<<"rate", c.N, NStr(w)>>, NClose(c.N, w, IF e.name = "Sauter" THEN NAdd("1e-9", NDiv("1e-11", NSub(e.E, KEnergy(c)))) ELSE "1e-9", 0)) /\ NClose(c.per, c.N, "1e-12", 0) /\ c.seen = 1 /\ NEq(c.loss, 1)
  /\ NClose(e.N, NSum([i \in 1..n |-> e.comp[i].N]), "1e-12", 0)
\* no tables without stochastic losses: electrons never lose more than half of their energy
EmptyOk(e) == e.table /\ IF e.cut = << >> THEN e.kind \in {"brems", "ioniz"} ELSE e.name = "BergerSeltzerMoller" /\ NLe("0.49", e.cut[1].v)
Ok(e) == CASE e.k = "empty" -> EmptyOk(e)
           [] e.k = "int" -> IntOk(e)
           [] e.k = "direct" -> DirectOk(e)
TraceNext == /\ l <= TraceLen
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
=============================================================================

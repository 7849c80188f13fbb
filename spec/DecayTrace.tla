----------------------------- MODULE DecayTrace -----------------------------
EXTENDS TraceBase, Decays
VARIABLES l, T, w
vars == <<l, T, w>>   \* T: the tables; w: which channel is which variant of which, and the stable one
TraceInit == l = 1 /\ T = << >> /\ w = << >>
After(o) ==
  CASE o.k = "add"     -> [T EXCEPT ![o.i] = Put(@, o.br, o.ch)]
    [] o.k = "selfadd" -> IF T[o.i] = << >> THEN T ELSE [T EXCEPT ![o.i] = Put(@, o.br, T[o.i][1].ch)]
    [] o.k \in {"copy", "assign"} -> [T EXCEPT ![o.i] = T[o.j]]
    [] o.k = "swap"    -> [T EXCEPT ![o.i] = T[o.j], ![o.j] = T[o.i]]
    [] o.k = "stable"  -> [T EXCEPT ![o.i] = Stable(w.stable)]
    [] o.k = "uniform" -> [T EXCEPT ![o.i] = Sampling(@, IF o.v THEN w.uni ELSE w.direct)]
    [] o.k = "none"    -> T
(* what was asked after the operation: for each table, for each random       *)
(* number, which of the known channels the answer equals; and comparisons    *)
Answers(e, S) ==
  /\ \A i \in 1..Len(S) : \A q \in 1..Len(e.sel[i]) :
        LET a == e.sel[i][q] IN ~NEq(Total(S[i]), 0) => \E c \in Chosen(S[i], a.r) : a.ch = c
  /\ \A i, j \in 1..Len(S) : e.eq[i][j] = SameTable(S[i], S[j]) /\ e.ne[i][j] = ~e.eq[i][j]
Ok(e, S) == CASE e.e = "world" -> TRUE
              [] e.e = "table" -> e.thrown = "" /\ Answers(e, S)
              [] e.e = "empty" -> e.thrown # ""
              [] e.e = "decay" -> DecayOk(e) /\ (e.lepton => LeptonOk(e))
              [] e.e = "boost" -> BoostOk(e.a, e.n, e.g, e.bg, e.b)
              [] e.e = "two"   -> TwoBody(e.m1, e.m2, e.m3, e.k)
              [] e.e = "dir"   -> NClose(VNorm(e.d), 1, 0, "1e-12") /\ NClose(e.d[3], NSub(NMul(2, e.r2), 1), 0, "1e-9")
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l]
         S == IF e.e = "world" THEN [i \in 1..e.n |-> << >>] ELSE IF e.e = "table" THEN After(e.op) ELSE T
     IN /\ IF Ok(e, S) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
        /\ T' = S
        /\ w' = IF e.e = "world" THEN e ELSE w
  /\ l' = l + 1
=============================================================================

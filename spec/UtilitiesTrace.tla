--------------------------- MODULE UtilitiesTrace ---------------------------
EXTENDS TraceBase, Integers, Utilities
VARIABLES l, W
vars == <<l, W>>
TraceInit == l = 1 /\ W = << >>
Ok(e) ==
  CASE e.k = "world" -> NEq(e.low, Low(e.w))
    [] e.k = "track" -> /\ Sharp(W, e.whole, Grammage(W, e.Ei, e.Ef))
                        /\ Sharp(W, NAdd(e.first, e.second), e.whole)
                        /\ NEq(e.none, 0) /\ NGe(e.first, 0) /\ NGe(e.second, 0)
    [] e.k = "end" -> LET all == Grammage(W, e.Ei, Low(W)) IN
                      IF NGt(e.X, NMul(all, NAdd(1, NMul(2, Tol(W))))) THEN e.thrown = "logic_error"
                      ELSE \/ e.thrown = "logic_error" /\ NGe(e.X, NMul(all, NSub(1, NMul(2, Tol(W)))))
                           \/ e.thrown = "" /\ Reaches(W, Grammage, e.Ei, e.X, e.got)
    [] e.k = "time" -> LET t == NDiv(Seconds(W, e.Ei, e.Ef), e.rho)  x == NDiv(Grammage(W, e.Ei, e.Ef), e.rho)  tol == TimeTol(W, e.Ef) IN
                       /\ NClose(e.t, t, tol, "1e-300") /\ NGe(e.t, NMul(NDiv(x, Speed), NSub(1, tol)))
                       /\ NClose(NAdd(e.first, e.second), e.t, tol, "1e-300") /\ NEq(e.none, 0)
                       /\ NClose(e.light, NDiv(NDiv(e.X, e.rho), Speed), "1e-14", 0)
    [] e.k = "rate" -> NClose(e.f, NDiv(1, Rate(W, e.E)), IF W.table THEN Tol(W) ELSE "1e-12", 0) \/ (NEq(Rate(W, e.E), 0) /\ NEq(e.f, "inf"))
    [] e.k = "depth" -> /\ Near(W, e.whole, Interactions(W, e.Ei, e.Ef), 0)
                        /\ Near(W, NAdd(e.first, e.second), e.whole, 0) /\ NEq(e.none, 0)
    [] e.k = "interaction" -> EndOrStop(W, Interactions, e.E, NNeg(NLog(e.rnd)), e.got)
    [] e.k = "decay" -> EndOrStop(W, Proper, e.E, NMul(NMul(NNeg(NLog(e.rnd)), W.life), e.rho), e.got)
    [] e.k = "variance" -> NClose(e.v, Variance(W, e.Ei, e.Ef), WideTol(W, e.Ei, e.Ef), "1e-300") /\ NEq(e.none, 0)
    [] e.k = "random" -> LET v == Variance(W, e.Ei, e.Ef)  s == NSqrt(v)  z(x) == NDiv(NSub(x, e.Ef), s)
                             low == NMax(Low(W), e.min)  a == Phi(z(low))  b == Phi(z(e.Ei)) IN
                         IF NEq(v, 0) THEN NEq(e.got, e.Ef)
                         ELSE /\ NLe(NSub(low, NMul("1e-6", s)), e.got) /\ NLe(e.got, NAdd(e.Ei, NMul("1e-6", s)))
                              /\ NClose(Phi(z(e.got)), NAdd(a, NMul(NSub(b, a), e.rnd)), 0, NMul(2, Tol(W)))
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ IF e.k = "world" THEN W' = e.w ELSE UNCHANGED W
     /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
  /\ l' = l + 1
=============================================================================

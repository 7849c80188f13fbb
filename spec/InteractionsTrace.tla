------------------------- MODULE InteractionsTrace -------------------------
EXTENDS TraceBase, Interactions
VARIABLES l, W
vars == <<l, W>>
TraceInit == l = 1 /\ W = << >>
\* process i, its type and the rates it claims at an energy
Claimed(E) == LET RECURSIVE F(_)
                  F(i) == IF i > Len(W.cross) THEN << >>
                          ELSE [j \in 1..Len(W.cross[i].rates) |-> [c |-> i, h |-> W.cross[i].rates[j].h, r |-> NMul(W.cross[i].rates[j].r, NDiv(E, 1000))]] \o F(i + 1) IN F(1)
Sampled(e, rates) ==
  IF None(rates) THEN e.thrown = "" /\ e.t = 0 /\ NEq(e.v, 0) /\ e.calls = << >>
  ELSE /\ e.thrown = "" /\ Len(e.calls) = 1
       /\ LET c == e.calls[1] IN
          /\ \E i \in 1..Len(rates) : /\ rates[i].c = c.c /\ rates[i].h = c.h
                                      /\ Within(rates, i, e.rnd) /\ Rest(rates, i, e.rnd, c.rate)
          /\ NEq(c.E, e.E) /\ NEq(c.v, e.v) /\ e.h = c.h /\ e.t = W.cross[c.c].t
Ok(e) ==
  CASE e.k = "world" -> TRUE
    [] e.k = "empty" -> e.thrown = "invalid_argument"
    [] e.k = "rates" -> /\ SameRates(e.rates, Claimed(e.E))
                        /\ NClose(e.f, IF NEq(Total(Claimed(e.E)), 0) THEN 0 ELSE NMul(e.disp, Total(Claimed(e.E))), "1e-13", 0)
                        /\ (NGt(Total(Claimed(e.E)), 0) => NClose(e.free, NDiv(1, Total(Claimed(e.E))), "1e-13", 0))
    \* from given rates, in their order
    [] e.k = "sample" -> Sampled(e, e.rates)
    \* the order is up to the code: as in the rates it lists
    [] e.k = "loss" -> SameRates(e.rates, Claimed(e.E)) /\ Sampled(e, e.rates)
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ IF e.k = "world" THEN W' = e.w ELSE UNCHANGED W
     /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
  /\ l' = l + 1
=============================================================================

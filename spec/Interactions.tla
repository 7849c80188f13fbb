---------------------------- MODULE Interactions ----------------------------
(* The interaction a particle undergoes.  A rate is known for every process  *)
(* and component; a random number chooses the one in whose interval of       *)
(* cumulated rates it lies, and the rest of it how much energy is lost.      *)
EXTENDS Num, Sequences
\* rates are records [c |-> process, h |-> component, r |-> rate]
Total(rates) == NSum([i \in 1..Len(rates) |-> rates[i].r])
Before(rates, i) == NSum([j \in 1..i - 1 |-> rates[j].r])
Border == "1e-12"
\* rounding at the borders of an interval
Within(rates, i, rnd) ==
  LET t == Total(rates)  x == NMul(rnd, t)  eps == NMul(Border, t) IN
  /\ NGt(rates[i].r, 0)
  /\ NLe(NSub(Before(rates, i), eps), x)
  /\ NLe(x, NAdd(NAdd(Before(rates, i), rates[i].r), eps))
\* the part of the rate which is left for the energy loss, from either end
Rest(rates, i, rnd, rate) ==
  LET t == Total(rates)  x == NMul(rnd, t)  eps == NMul(Border, t) IN
  /\ NGe(rate, 0) /\ NLe(rate, NAdd(rates[i].r, eps))
  /\ \/ NClose(rate, NSub(NAdd(Before(rates, i), rates[i].r), x), 0, eps)
     \/ NClose(rate, NSub(x, Before(rates, i)), 0, eps)
None(rates) == NEq(Total(rates), 0)
\* equal up to order
SameRates(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i].c = b[j].c /\ a[i].h = b[j].h /\ NClose(a[i].r, b[j].r, "1e-14", 0)
                   /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : a[i].c = b[j].c /\ a[i].h = b[j].h
=============================================================================

------------------------------- MODULE Decays -------------------------------
(* Decay tables as lists of channels with their branching ratios, and decays *)
(* as relations between the decaying particle and its products.              *)
EXTENDS Num, Sequences, FiniteSets

(* ---------------------------------------------------------------- tables - *)
(* A table is a sequence of [br, ch] in ascending order of br, channels of   *)
(* equal br in the order in which they were added.  ch numbers the channels; *)
(* uni[ch] and direct[ch] are the two variants of one that can be sampled    *)
(* uniformly or directly (the channel itself for all others).                *)
Put(T, br, ch) ==
  LET n == Cardinality({i \in 1..Len(T) : NLe(T[i].br, br)})
  IN SubSeq(T, 1, n) \o <<[br |-> br, ch |-> ch]>> \o SubSeq(T, n + 1, Len(T))
Stable(st) == <<[br |-> "1.1", ch |-> st]>>
Sampling(T, variant) == [i \in 1..Len(T) |-> [T[i] EXCEPT !.ch = variant[@]]]
SameTable(S, T) == /\ Len(S) = Len(T)
                   /\ \A i \in 1..Len(S) : NEq(S[i].br, T[i].br) /\ S[i].ch = T[i].ch
UpTo(T, k) == NSum([i \in 1..k |-> T[i].br])
Total(T) == UpTo(T, Len(T))
(* the channels a random number may choose: the one whose interval contains  *)
(* it, or the neighbour within rounding of the border                        *)
Eps == "1e-13"
Chosen(T, rnd) == {T[k].ch : k \in {j \in 1..Len(T) :
    LET lo == NSub(NDiv(UpTo(T, j - 1), Total(T)), Eps)
        hi == NAdd(NDiv(UpTo(T, j), Total(T)), Eps)
    IN NGt(T[j].br, 0) /\ NLe(lo, rnd) /\ NLt(rnd, hi)}}

(* ---------------------------------------------------------------- decays - *)
(* parent: [m, E, d, p, t]; product: [ty, m, E, d, p, t, l]                   *)
Mom(E, m) == NSqrt(NMax(0, NMul(NAdd(E, m), NSub(E, m))))
Momentum3(q) == VScale(Mom(q.E, q.m), q.d)
\* the precision of a momentum taken from the energy
Blur(q) == NDiv(NMul("4e-15", NSq(q.E)), NMax(NMul("6e-8", q.E), NMax(Mom(q.E, q.m), "1e-300")))
SumV(s) == <<NSum([i \in 1..Len(s) |-> s[i][1]]), NSum([i \in 1..Len(s) |-> s[i][2]]), NSum([i \in 1..Len(s) |-> s[i][3]])>>
Physical(q) == /\ NFinite(q.E) /\ NGe(q.E, NMul(q.m, "0.999999999999"))
               /\ NClose(VNorm(q.d), 1, 0, "1e-9")
Here(parent, q) == VEq(q.p, parent.p) /\ NEq(q.t, parent.t) /\ NEq(q.l, 0)
(* tol: rounding grows with the boosts between the frames                    *)
Conserves(parent, products, tol) ==
  /\ NClose(NSum([i \in 1..Len(products) |-> products[i].E]), parent.E, 0, NMul(tol, parent.E))
  /\ VClose(SumV([i \in 1..Len(products) |-> Momentum3(products[i])]), Momentum3(parent), 0,
            NAdd(NMul(tol, parent.E), NSum([i \in 1..Len(products) |-> Blur(products[i])])))
DecayOk(e) ==
  /\ Len(e.products) = Len(e.types)
  /\ \A i \in 1..Len(e.types) :
       LET q == e.products[i] IN
       q.ty = e.types[i].t /\ NEq(q.m, e.types[i].m) /\ Physical(q) /\ Here(e.parent, q)
  /\ (Len(e.types) > 0 => Conserves(e.parent, e.products, e.tol))

(* the charged lepton of a leptonic decay at rest has the energy at which    *)
(* the cumulated spectrum reaches the random number                          *)
RateApprox(x) == NMul(NMul(x, NSq(x)), NSub(1, NMul("0.5", x)))
RateExact(x, M, m, Emax) ==
  LET E == NMul(Emax, x)
      k2 == NMax(0, NSub(NSq(E), NSq(m)))
      k == NSqrt(k2)
      M2 == NSq(M)
      m2 == NSq(m)
  IN NAdd(NMul(NMul("1.5", NMul(NSq(m2), M)), NLog(NAdd(k, E))),
          NMul(k, NSub(NMul(NSub(NAdd(M2, m2), NMul(M, E)), k2), NMul(NMul("1.5", NMul(M, E)), m2))))
LeptonOk(e) ==
  LET M == e.parent.m
      m == e.products[1].m
      Emax == NDiv(NAdd(NSq(M), NSq(m)), NMul(2, M))
      R(x) == IF e.exact THEN RateExact(x, M, m, Emax) ELSE RateApprox(x)
      xmin == NDiv(m, Emax)
      want == NAdd(R(xmin), NMul(e.rnd, NSub(R(1), R(xmin))))
      x == NDiv(e.products[1].E, Emax)
      slack == "0.0021"   \* the root is sought to 1e-3
      noise == NMul("1e-12", NAbs(R(1)))
  IN /\ NLe(x, "1.0000000001")
     /\ NLe(R(NMax(xmin, NSub(x, slack))), NAdd(want, noise))
     /\ NGe(R(NMin(1, NAdd(x, slack))), NSub(want, noise))

(* Lorentz boost of a state [m, E, d] along unit n: E' = g E - bg p.n        *)
BoostOk(a, n, g, bg, b) ==
  LET P == Momentum3(a)
      u == VScale(NDiv(1, VNorm(n)), n)
      pn == NDot(P, u)
      E1 == NSub(NMul(g, a.E), NMul(bg, pn))
      P1 == VAdd(P, VScale(NSub(NMul(NSub(g, 1), pn), NMul(bg, a.E)), u))
      scale == NMul("1e-12", NMul(NAdd(g, bg), a.E))
  IN NClose(b.E, E1, 0, scale) /\ VClose(Momentum3(b), P1, 0, NAdd(scale, Blur(b)))
(* Momentum of the two products of a decay m1 -> m2 m3                       *)
TwoBody(m1, m2, m3, k) == LET E2 == NSqrt(NAdd(NSq(k), NSq(m2)))
                              E3 == NSqrt(NAdd(NSq(k), NSq(m3)))
                          IN NClose(NAdd(E2, E3), m1, "1e-12", 0)
=============================================================================

------------------------------ MODULE Utilities ------------------------------
(* What grammage, time, interaction and decay integrals between two energies  *)
(* are, for processes of known energy loss, rate and straggling: process i    *)
(* loses a+bE, interacts with n0+n1 E/(E+1000), straggles with v0 E+v1 E^2.   *)
EXTENDS Num, Sequences
Speed == "2.99792458e10"
Over(W, f(_)) == NSum([i \in 1..Len(W.cross) |-> f(W.cross[i])])
Loss(W, E) == Over(W, LAMBDA c : NAdd(c.a, NMul(c.b, E)))
Rate(W, E) == Over(W, LAMBDA c : NAdd(c.n0, NMul(c.n1, NDiv(E, NAdd(E, 1000)))))
Straggling(W, E) == Over(W, LAMBDA c : NAdd(NMul(c.v0, E), NMul(c.v1, NSq(E))))
(* all integrals over the rapidity u (of a massless particle: its logarithm   *)
(* of energy): E = m cosh u, p = m sinh u, dE = p du                          *)
GX == <<"0.01985507175123188", "0.10166676129318664", "0.2372337950418355", "0.40828267875217511", "0.59171732124782489", "0.7627662049581645", "0.89833323870681336", "0.98014492824876812">>
GW == <<"0.05061426814518813", "0.11119051722668723", "0.15685332293894364", "0.18134189168918099", "0.18134189168918099", "0.15685332293894364", "0.11119051722668723", "0.05061426814518813">>
Massless(W) == NEq(W.mass, 0)
Mom(W, E) == NSqrt(NMax(0, NMul(NSub(E, W.mass), NAdd(E, W.mass))))
Rapidity(W, E) == IF Massless(W) THEN NLog(E) ELSE NLog(NDiv(NAdd(E, Mom(W, E)), W.mass))
Energy(W, u) == IF Massless(W) THEN NExp(u) ELSE NMul(W.mass, NDiv(NAdd(NExp(u), NExp(NNeg(u))), 2))
MomAt(W, u) == IF Massless(W) THEN NExp(u) ELSE NMul(W.mass, NDiv(NSub(NExp(u), NExp(NNeg(u))), 2))
Quad(W, Ei, Ef, f(_, _)) ==
  LET a == Rapidity(W, Ef)  b == Rapidity(W, Ei)  n == 1 + NFloor(NMul(2, NSub(b, a)))  h == NDiv(NSub(b, a), n) IN
  IF NEq(Ei, Ef) THEN 0 ELSE
  NSum([k \in 1..8 * n |-> LET i == (k - 1) \div 8  j == 1 + ((k - 1) % 8)  u == NAdd(a, NMul(h, NAdd(i, GX[j]))) IN
                           NMul(NMul(h, GW[j]), f(Energy(W, u), MomAt(W, u)))])
Grammage(W, Ei, Ef) == Quad(W, Ei, Ef, LAMBDA E, p : NDiv(p, Loss(W, E)))
Interactions(W, Ei, Ef) == Quad(W, Ei, Ef, LAMBDA E, p : NDiv(NMul(p, Rate(W, E)), Loss(W, E)))
Variance(W, Ei, Ef) == Quad(W, Ei, Ef, LAMBDA E, p : NDiv(NMul(p, Straggling(W, E)), Loss(W, E)))
\* seconds in a medium of density 1
Seconds(W, Ei, Ef) == NDiv(Quad(W, Ei, Ef, LAMBDA E, p : NDiv(E, Loss(W, E))), Speed)
\* and in the frame of the particle
Proper(W, Ei, Ef) == NDiv(NMul(W.mass, Quad(W, Ei, Ef, LAMBDA E, p : NDiv(1, Loss(W, E)))), Speed)
Low(W) == LET RECURSIVE M(_, _)
              M(i, m) == IF i > Len(W.cross) THEN m ELSE M(i + 1, NMin(m, W.cross[i].low)) IN M(1, "inf")
(* ------------------------------------------------------------- answers - *)
\* accuracy of the integrals, worse in tables
Tol(W) == IF W.table THEN "2e-2" ELSE "1e-4"
(* the time per energy is infinite (but integrable) at rest, and what grows    *)
(* quadratically over many decades is known less well                         *)
TimeTol(W, Ef) == NMax(Tol(W), IF NLt(Ef, NMul("1.1", W.mass)) THEN "5e-2" ELSE IF NLt(Ef, NMul(2, W.mass)) THEN "1e-3" ELSE 0)
WideTol(W, Ei, Ef) == NMax(Tol(W), IF NGt(Ei, NMul("1e3", Ef)) THEN "2e-3" ELSE 0)
Near(W, x, y, whole) == NClose(x, y, Tol(W), NAdd("1e-300", NMul(IF W.table THEN "2e-4" ELSE "1e-5", whole)))
Sharp(W, x, y) == NClose(x, y, Tol(W), "1e-300")
(* the energy at which an integral F from Ei reaches a value; beyond: that of  *)
(* all energies down to the lowest                                            *)
Reaches(W, F(_, _, _), Ei, value, got) ==
  LET all == F(W, Ei, Low(W)) IN
  /\ NLe(Low(W), got) /\ NLe(got, NMul(Ei, "1.000001"))
  /\ \/ NClose(F(W, NMax(Ei, got), got), value, TimeTol(W, got), NAdd("1e-300", NMul(IF W.table THEN "2e-4" ELSE "1e-5", all)))
     \/ \* energies cannot be told apart finer than this
        \E d \in {IF W.table THEN "1e-3" ELSE "1e-5"} : LET hi == NMin(Ei, NMul(got, NAdd(1, d)))  lo == NMax(Low(W), NMul(got, NSub(1, d))) IN
           NLe(F(W, Ei, hi), value) /\ NLe(value, F(W, Ei, lo))
EndOrStop(W, F(_, _, _), Ei, value, got) ==
  LET all == F(W, Ei, Low(W)) IN
  \/ NGe(value, NMul(all, NSub(1, NMul(2, TimeTol(W, Low(W)))))) /\ NEq(got, Low(W))
  \/ NLe(value, NMul(all, NAdd(1, NMul(2, TimeTol(W, Low(W)))))) /\ Reaches(W, F, Ei, value, got)
Phi(z) == NMul("0.5", NErfc(NNeg(NDiv(z, NSqrt(2)))))
=============================================================================

------------------------------ MODULE PropLoop ------------------------------
(***************************************************************************)
(* The propagation of a particle through sectors.                          *)
(*                                                                         *)
(* State: the particle [p, d, E, t, s], the sector it is in, and whether   *)
(* the propagation goes on.  One iteration is one transition:              *)
(*   propose   the energies at which the particle would interact or decay  *)
(*             next, the least energy being the third proposal             *)
(*   advance   straight along the mean direction of the step, until the    *)
(*             highest proposal is reached, or the sector is left (or one  *)
(*             of a higher hierarchy entered), or the particle has gone    *)
(*             its maximal distance                                        *)
(*   act       interact, decay or stop, if that is what was reached        *)
(*                                                                         *)
(* Sectors W[w]: [g, h, rho, a, b, m, exact, kt, cross, decay, crand, ms,  *)
(* scatter, defl]; physics as in module Track.                             *)
(***************************************************************************)
EXTENDS Track

(* ---- where is the particle ------------------------------------------- *)
ExactTol == "5e-10"          \* the library takes borders closer than 1e-9 for reached
Doubt == "2e-5"
\* the end of a stretch is neither on the particle nor clear of it
Doubtful(g, p, u) == LET s == Stretches(g, p, u, 0) IN
  \/ \E e \in Ends(s) : NGt(NAbs(e), ExactTol) /\ NLe(NAbs(e), Doubt)
  \/ \E i \in 1..Len(s) : NLe(Length(s[i]), Doubt)
  \/ Len(s) = 2 /\ NLe(NSub(s[2][1], s[1][2]), Doubt)
  \/ Tangent(g, p, u, Doubt)
\* a ray which stays within the border for a while: everything about it is in doubt
Grazes(g, p, u) == LET s == Stretches(g, p, u, 0) IN
  \/ \E i \in 1..Len(s) : NLe(Length(s[i]), "1e-3")
  \/ Len(s) = 2 /\ NLe(NSub(s[2][1], s[1][2]), "1e-3")
  \/ Tangent(g, p, u, "1e-3") \/ RunsInBorder(g, p, u, "1e-9")
Ahead(g, p, u) == Answer(Stretches(g, p, u, 0), ExactTol)
In(g, p, u) == Classify(Ahead(g, p, u)) = "inside"
Unclear(W, p, u) == \E i \in 1..Len(W) : Doubtful(W[i].g, p, u) \/ Grazes(W[i].g, p, u)
\* the sectors a particle at p moving along u may be in
Sectors(W, p, u) ==
  LET sure == {i \in 1..Len(W) : In(W[i].g, p, u) /\ ~Doubtful(W[i].g, p, u)}
      maybe == sure \cup {i \in 1..Len(W) : Doubtful(W[i].g, p, u) \/ Grazes(W[i].g, p, u)}
  IN {i \in maybe : \A j \in sure : W[j].h <= W[i].h}
\* to the border of the sector, or of one which takes precedence
Border(W, w, p, u) ==
  LET d == [i \in 1..Len(W) |-> IF i = w \/ W[i].h > W[w].h THEN Ahead(W[i].g, p, u)[1] ELSE -1]
      RECURSIVE Least_(_, _)
      Least_(i, x) == IF i > Len(W) THEN x
                      ELSE Least_(i + 1, IF NGe(d[i], 0) /\ (NLt(x, 0) \/ NLt(d[i], x)) THEN d[i] ELSE x)
  IN Least_(1, -1)

(* ---- proposals -------------------------------------------------------- *)
Least(W, c, mine) == NMax(mine, W[c].m)
Chosen(Ed, Em, Es) == IF NGe(Ed, Em) /\ NGe(Ed, Es) THEN "decay" ELSE IF NGe(Em, Es) THEN "min" ELSE "stoch"
Highest(Ed, Em, Es) == NMax(Ed, NMax(Em, Es))
(* how far the particle may go along u in sector w: <<what ends it, length>> *)
Reach(W, w, st, u, T, maxd) ==
  [int |-> NDiv(Grammage(W[w], st.E, T), W[w].rho), border |-> Border(W, w, st.p, u), max |-> NSub(maxd, st.s)]

(* ---- directions ------------------------------------------------------- *)
Frame(d) == LET rho == NSqrt(NAdd(NSq(d[1]), NSq(d[2])))
                az == NAtan2(d[2], d[1]) IN
  [x |-> << NMul(d[3], NCos(az)), NMul(d[3], NSin(az)), NNeg(rho) >>, y |-> << NNeg(NSin(az)), NCos(az), 0 >>]
Turn(d, sx, sy) == LET f == Frame(d) sz == NSqrt(NMax(0, NSub(1, NAdd(NSq(sx), NSq(sy))))) IN
  VAdd(VScale(sz, d), VAdd(VScale(sx, f.x), VScale(sy, f.y)))

(* who stops the propagation when a border is crossed *)
LeavesFor(W, w, c, hc) == W[w].h > hc /\ W[c].h < hc
Exhausted(st, Em, maxd) == NLt(st.E, Em) \/ NGt(st.s, maxd)
=============================================================================

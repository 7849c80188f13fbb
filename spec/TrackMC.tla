------------------------------ MODULE TrackMC -------------------------------
(* Every short track along a line, in whole numbers: a step of length L       *)
(* loses 16 L and takes 8 L (thousandths), an interaction loses 16 or nothing,*)
(* a decay ends the track.  What Track.tla answers on them is checked here,   *)
(* and every one of them is printed to be replayed against the real class.    *)
EXTENDS Track, TLC, Json
CONSTANT Depth
VARIABLE pts
W == << [a |-> 8, b |-> 0, rho |-> 2, exact |-> TRUE, kt |-> "1e-3"] >>
P(s, E, t, ty) == [s |-> s, E |-> E, t |-> t, type |-> ty]
Last == pts[Len(pts)]
MCInit == pts = << P(0, 1000, 0, Cont) >>
Step == \E L \in {0, 1, 2} : pts' = Append(pts, P(Last.s + L, Last.E - 16 * L, Last.t + 8 * L, Cont))
Lose == \E v \in {0, 16}, ty \in {2, 6} : pts' = Append(pts, P(Last.s, Last.E - v, Last.t, ty))
Decay == pts' = Append(pts, P(Last.s, Last.E, Last.t, DecayT))
MCNext == Last.type # DecayT /\ Len(pts) <= Depth /\ (Step \/ Lose \/ Decay)
Full == [i \in 1..Len(pts) |-> [ty |-> 13, p |-> <<pts[i].s, 0, 0>>, d |-> <<1, 0, 0>>, E |-> pts[i].E, t |-> NMul(pts[i].t, "1e-3"), s |-> pts[i].s, type |-> pts[i].type, hash |-> "0", sec |-> 1]]
\* what was recorded is found again, what lies between is ordered
F == Full
Es == {pts[i].E : i \in 1..Len(pts)}
Ss == {pts[i].s : i \in 1..Len(pts)}
Sane == \A i \in 1..(Len(pts)-1) : pts[i].E >= pts[i+1].E /\ pts[i].s <= pts[i+1].s /\ pts[i].t <= pts[i+1].t
FoundEnergy == \A q \in Es : NEq(AtEnergy(W, F, q).E, q)
FoundDistance == \A q \in Ss : NEq(AtDistance(W, F, q).s, q)
BetweenEnergy == \A q \in (Last.E)..1000 : LET r == AtEnergy(W, F, q) IN
   /\ NGe(r.E, q) /\ NGe(r.s, 0) /\ NLe(r.s, Last.s)
   \* continuous losses reach the energy itself unless an interaction jumps over it
   /\ (\A i \in 2..Len(pts) : ~(pts[i].type # Cont /\ pts[i].E < q /\ q < pts[i-1].E)) => NClose(r.E, q, "1e-12", 0)
MonotoneDistance == \A q \in 0..(2 * Last.s - 1) : LET a == AtDistance(W, F, NDiv(q, 2)) b == AtDistance(W, F, NDiv(q + 1, 2)) IN
   NGe(a.E, b.E) /\ NLe(a.t, b.t) /\ NLe(a.s, b.s) /\ NClose(a.s, NDiv(q, 2), "1e-12", 0)
Balance == TotalOk([k \in 1..Len(Indices(LAMBDA i : IsStoch(F, i), Len(F))) |-> Loss(F, Indices(LAMBDA i : IsStoch(F, i), Len(F))[k])],
                   [k \in 1..Len(Indices(LAMBDA i : IsCont(F, i), Len(F))) |-> StepLoss(F, Indices(LAMBDA i : IsCont(F, i), Len(F))[k])], F)
Behaviour == PrintT("GEN " \o ToJson(pts))
=============================================================================

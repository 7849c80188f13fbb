------------------------------- MODULE Track --------------------------------
(***************************************************************************)
(* A recorded track and everything that may be asked of it.                *)
(*                                                                         *)
(* State: the sequence of recorded points                                  *)
(*   [ty, p, d, E, t, s, type, hash, sec]                                  *)
(* (particle, position, direction, energy, time, propagated distance, what *)
(* led here, its target, and the sector the step went through), growing by *)
(* Push and reset by Clear.  All queries are functions of that sequence;   *)
(* between two points of a continuous step the physics of its sector       *)
(* applies: dE/dX = a + b E, X = rho * length, and time either that of     *)
(* light or proportional to the energy lost.                               *)
(***************************************************************************)
EXTENDS Geometry, Sequences, FiniteSets
SPEED == "2.99792458e10"
Cont == 8
DecayT == 11

(* physics of a sector w *)
Grammage(w, Ei, Ef) == IF NEq(w.b, 0) THEN NDiv(NSub(Ei, Ef), w.a)
                       ELSE NDiv(NLog(NDiv(NAdd(w.a, NMul(w.b, Ei)), NAdd(w.a, NMul(w.b, Ef)))), w.b)
After(w, E, X) == IF NEq(w.b, 0) THEN NSub(E, NMul(w.a, X))
                  ELSE NDiv(NSub(NMul(NAdd(w.a, NMul(w.b, E)), NExp(NNeg(NMul(w.b, X)))), w.a), w.b)
Elapsed(w, Ei, Ef, X) == IF w.exact THEN NDiv(NMul(w.kt, NSub(Ei, Ef)), w.rho)
                         ELSE NDiv(X, NMul(w.rho, SPEED))
Unit(v) == VScale(NDiv(1, VNorm(v)), v)

First(P(_), n) == IF \E i \in 2..n : P(i) THEN CHOOSE i \in 2..n : P(i) /\ \A j \in 2..(i-1) : ~P(j) ELSE 0

(* continuous losses alone, over the length L from point i-1 towards point i *)
Between(W, pts, i, L) ==
  LET a == pts[i-1]
      w == W[pts[i].sec]
      u == Unit(VSub(pts[i].p, a.p))
      X == NMul(w.rho, L)
      E == After(w, a.E, X)
  IN [ty |-> a.ty, p |-> VAdd(a.p, VScale(L, u)), d |-> u, E |-> E,
      t |-> NAdd(a.t, Elapsed(w, a.E, E, X)), s |-> NAdd(a.s, L)]

AtEnergy(W, pts, E) ==
  IF NGe(E, pts[1].E) THEN pts[1]
  ELSE LET i == First(LAMBDA j : NLt(pts[j].E, E), Len(pts)) IN
       IF i = 0 THEN pts[Len(pts)]
       ELSE IF pts[i].type # Cont THEN pts[i-1]
       ELSE Between(W, pts, i, NDiv(Grammage(W[pts[i].sec], pts[i-1].E, E), W[pts[i].sec].rho))

AtDistance(W, pts, s) ==
  IF NLe(s, pts[1].s) THEN pts[1]
  ELSE LET i == First(LAMBDA j : NGt(pts[j].s, s), Len(pts)) IN
       IF i = 0 THEN pts[Len(pts)] ELSE Between(W, pts, i, NSub(s, pts[i-1].s))

(* scale of positions for tolerances *)
SameState(r, x, scale, rel) ==
  /\ r.ty = x.ty
  /\ VClose(r.p, x.p, rel, NMul(rel, scale)) /\ VClose(r.d, x.d, rel, NMul(rel, 10))
  /\ NClose(r.E, x.E, rel, NMul(rel, 1)) /\ NClose(r.t, x.t, rel, NMul(rel, "1e-9")) /\ NClose(r.s, x.s, rel, NMul(rel, scale))
Scale(pts) == NAdd(1, NAdd(NAbs(pts[Len(pts)].s), NAdd(VNorm(pts[1].p), VNorm(pts[Len(pts)].p))))

(* ---- losses --------------------------------------------------------- *)
Indices(P(_), n) == SelectSeq([i \in 1..n |-> i], P)
Loss(pts, i) == [ty |-> pts[i].type, E |-> NSub(pts[i-1].E, pts[i].E), parent |-> pts[i-1].E,
                 p |-> pts[i].p, d |-> pts[i].d, t |-> pts[i].t, s |-> pts[i].s, hash |-> pts[i].hash]
StepLoss(pts, i) == [ty |-> Cont, E |-> NSub(pts[i-1].E, pts[i].E), parent |-> pts[i-1].E,
                 p0 |-> pts[i-1].p, p1 |-> pts[i].p, d0 |-> pts[i-1].d, d1 |-> pts[i].d, t0 |-> pts[i-1].t, t1 |-> pts[i].t]
IsStoch(pts, i) == i >= 2 /\ pts[i].type \notin {Cont, DecayT}
IsCont(pts, i) == i >= 2 /\ pts[i].type = Cont
SameLoss(r, x) == /\ r.ty = x.ty /\ NEq(r.E, x.E) /\ NEq(r.parent, x.parent) /\ VEq(r.p, x.p) /\ VEq(r.d, x.d)
                  /\ NEq(r.t, x.t) /\ NEq(r.s, x.s) /\ r.hash = x.hash
SameStep(r, x) == /\ r.ty = x.ty /\ NEq(r.E, x.E) /\ NEq(r.parent, x.parent) /\ VEq(r.p0, x.p0) /\ VEq(r.p1, x.p1)
                  /\ VEq(r.d0, x.d0) /\ VEq(r.d1, x.d1) /\ NEq(r.t0, x.t0) /\ NEq(r.t1, x.t1)
StochOk(r, pts, keep(_)) == LET ix == Indices(LAMBDA i : IsStoch(pts, i) /\ keep(i), Len(pts)) IN
   Len(r) = Len(ix) /\ \A k \in 1..Len(ix) : SameLoss(r[k], Loss(pts, ix[k]))
ContOk(r, pts, keep(_)) == LET ix == Indices(LAMBDA i : IsCont(pts, i) /\ keep(i), Len(pts)) IN
   Len(r) = Len(ix) /\ \A k \in 1..Len(ix) : SameStep(r[k], StepLoss(pts, ix[k]))
(* nothing lost twice or forgotten *)
TotalOk(stoch, steps, pts) ==
   NClose(NAdd(NSum([k \in 1..Len(stoch) |-> stoch[k].E]), NSum([k \in 1..Len(steps) |-> steps[k].E])),
          NSub(pts[1].E, pts[Len(pts)].E), "1e-9", "1e-6")

(* ---- geometry -------------------------------------------------------- *)
SegLen(pts, i) == VNorm(VSub(pts[i+1].p, pts[i].p))
Arc(pts, i) == NSum([j \in 1..(i-1) |-> SegLen(pts, j)])       \* along the polyline
(* the stretches of the polyline in the solid: <<from, to>> along it *)
Parts(g, pts, tol) ==
  LET n == Len(pts)
      RECURSIVE Go(_, _)
      Go(i, arc) ==
        IF i >= n THEN << >>
        ELSE LET L == SegLen(pts, i) IN
             IF NLe(L, "1e-9") THEN Go(i+1, arc)
             ELSE LET u == Unit(VSub(pts[i+1].p, pts[i].p))
                      cut == [k \in 1..Len(Stretches(g, pts[i].p, u, 0)) |->
                                LET r == Stretches(g, pts[i].p, u, 0)[k] IN <<NAdd(arc, NMax(0, r[1])), NAdd(arc, NMin(L, r[2]))>>]
                  IN SelectSeq(cut, LAMBDA r : NGt(Length(r), tol)) \o Go(i+1, NAdd(arc, L))
  IN Go(1, 0)
Inside(g, p, d, tol) == Classify(Answer(Stretches(g, p, d, 0), tol)) = "inside"
EnteringAt(g, p, d, tol) == Inside(g, p, d, tol) /\ Classify(Answer(Stretches(g, p, VScale(-1, d), 0), tol)) = "behind"
LeavingAt(g, p, d, tol) == Classify(Answer(Stretches(g, p, d, 0), tol)) = "behind" /\ Inside(g, p, VScale(-1, d), tol)
(* r lies on the track: it is a recorded point, or the state at its distance *)
OnTrack(W, pts, r) ==
  \/ \E i \in 1..Len(pts) : SameState(r, pts[i], Scale(pts), "1e-12")
  \/ SameState(r, AtDistance(W, pts, r.s), Scale(pts), "1e-7")
  \/ \E i \in 2..Len(pts) : /\ pts[i].type = Cont /\ NGe(r.s, pts[i-1].s) /\ NLe(r.s, NAdd(pts[i].s, "1e-6")) /\ NGt(pts[i].s, pts[i-1].s)
                            /\ SameState(r, Between(W, pts, i, NSub(r.s, pts[i-1].s)), Scale(pts), "1e-7")
OnBorder(g, p, d, tol) == \E e \in Ends(Stretches(g, p, d, 0)) : NLe(NAbs(e), tol)
Res == "0.004"      \* some of the library's position resolution (0.001)
EntryOk(g, W, pts, r, null) ==
  LET parts == Parts(g, pts, Res)
      f == pts[1]
      s0 == f.s
      touch == ~null /\ \E i \in 1..Len(pts) : SameState(r, pts[i], Scale(pts), "1e-12")
  IN IF EnteringAt(g, f.p, f.d, "1e-6") THEN ~null /\ SameState(r, f, Scale(pts), "1e-12")
     ELSE IF Inside(g, f.p, f.d, "1e-6") THEN null
     ELSE IF parts = << >> THEN null \/ touch
     ELSE /\ ~null /\ OnTrack(W, pts, r)
          /\ \/ NClose(NSub(r.s, s0), parts[1][1], "1e-9", Res)
             \/ touch /\ NLt(NSub(r.s, s0), parts[1][1])
ExitOk(g, W, pts, r, null) ==
  LET parts == Parts(g, pts, Res)
      b == pts[Len(pts)]
      f == pts[1]
      s0 == f.s
      touch == ~null /\ \E i \in 1..Len(pts) : SameState(r, pts[i], Scale(pts), "1e-12")
  IN IF LeavingAt(g, b.p, b.d, "1e-6") THEN ~null /\ SameState(r, b, Scale(pts), "1e-12")
     ELSE IF Inside(g, b.p, b.d, "1e-6") THEN null
     ELSE IF parts = << >> THEN null \/ touch
     ELSE /\ ~null /\ OnTrack(W, pts, r)
          /\ \/ NClose(NSub(r.s, s0), parts[Len(parts)][2], "1e-9", Res)
             \/ touch /\ NGt(NSub(r.s, s0), parts[Len(parts)][2])
(* distance of the segment i from the centre *)
SegDist(g, pts, i) ==
  LET L == SegLen(pts, i) IN
  IF NLe(L, "1e-9") THEN VNorm(VSub(pts[i].p, g.c))
  ELSE LET u == Unit(VSub(pts[i+1].p, pts[i].p))
           x == NMax(0, NMin(L, NDot(VSub(g.c, pts[i].p), u)))
       IN VNorm(VSub(VAdd(pts[i].p, VScale(x, u)), g.c))
ClosestOk(g, W, pts, r) ==
  LET n == Len(pts)
      dist == VNorm(VSub(r.p, g.c)) IN
  /\ OnTrack(W, pts, r)
  /\ IF n = 1 THEN TRUE ELSE \A i \in 1..(n-1) : NLe(dist, NAdd(SegDist(g, pts, i), "0.0015"))
HitOk(g, pts, hit) ==
  LET parts == Parts(g, pts, Res)
      b == pts[Len(pts)] IN
  IF parts # << >> \/ Inside(g, b.p, b.d, "1e-6") THEN hit
  ELSE hit => Parts(g, pts, "-1e-6") # << >> \/ \E i \in 1..Len(pts) : OnBorder(g, pts[i].p, pts[i].d, Res)
ELostOk(e, pts) ==
  LET g == e.g
      f == pts[1]
      b == pts[Len(pts)]
      parts == Parts(g, pts, Res)
      start == IF ~e.noentry THEN e.entry.E ELSE f.E
      stop == IF ~e.noexit THEN e.exit.E ELSE b.E
      began == ~e.noentry \/ Inside(g, f.p, f.d, "1e-6")
      ended == ~e.noexit \/ Inside(g, b.p, b.d, "1e-6")
  IN IF began /\ ended THEN NClose(e.elost, NSub(start, stop), "1e-12", "1e-12") ELSE parts = << >> => NEq(e.elost, 0)
=============================================================================

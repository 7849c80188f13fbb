----------------------------- MODULE TrackTrace -----------------------------
(* Records and queries of one Secondaries object, in the order they happened. *)
EXTENDS Track, TraceBase
VARIABLES l, W, pts
Which == IOEnv.PART
NoGeo == TRUE
RelPts == [i \in 1..Len(pts) |-> [ty |-> pts[i].ty, p |-> pts[i].p, d |-> pts[i].d, E |-> pts[i].E, t |-> pts[i].t, s |-> pts[i].s]]
GettersOk(e) ==
  /\ e.len = Len(pts)
  /\ e.track = RelPts
  /\ e.types = [i \in 1..Len(pts) |-> pts[i].type]
  /\ e.hashes = [i \in 1..Len(pts) |-> pts[i].hash]
  /\ e.E = [i \in 1..Len(pts) |-> pts[i].E] /\ e.t = [i \in 1..Len(pts) |-> pts[i].t] /\ e.s = [i \in 1..Len(pts) |-> pts[i].s]
  /\ e.pos = [i \in 1..Len(pts) |-> pts[i].p] /\ e.dir = [i \in 1..Len(pts) |-> pts[i].d]
  /\ (Len(pts) > 0 => e.first = RelPts[1] /\ e.last = RelPts[Len(pts)] /\ e.back = RelPts[Len(pts)])
Pure(q) == [ty |-> q.ty, p |-> q.p, d |-> q.d, E |-> q.E, t |-> q.t, s |-> q.s]
\* a recorded energy answers with a recorded point (the direction apart), anything else between its neighbours
Ordered(r) == \/ \E i \in 1..Len(pts) : NClose(r.s, pts[i].s, "1e-9", NMul("1e-9", Scale(pts)))
              \/ \E i \in 2..Len(pts) : /\ NGe(r.s, pts[i-1].s) /\ NLe(r.s, NAdd(pts[i].s, NMul("1e-9", Scale(pts)))) /\ NLe(r.E, NMul("1.000000001", pts[i-1].E)) /\ NGe(r.E, NMul("0.999999999", pts[i].E))
                                        /\ NGe(r.t, pts[i-1].t) /\ NLe(r.t, NAdd(pts[i].t, NMul("1e-9", NAbs(pts[i].t))))
EnergyOk(e) == LET x == Pure(AtEnergy(W, pts, e.q)) IN SameState(e.r, x, Scale(pts), "1e-8") /\ Ordered(e.r)
DistanceOk(e) == LET x == Pure(AtDistance(W, pts, e.q)) IN SameState(e.r, x, Scale(pts), "1e-8") /\ Ordered(e.r)
InsOk(e) == \A i \in 1..Len(pts) : e.ins[i] = Inside(e.g, pts[i].p, pts[i].d, "1e-6") \/ Degenerate(e.g, pts[i].p, pts[i].d, "1e-4")
LossesOk(e) ==
  /\ StochOk(e.stoch, pts, LAMBDA i : TRUE) /\ ContOk(e.cont, pts, LAMBDA i : TRUE)
  /\ TotalOk(e.stoch, e.cont, pts)
  /\ \A k \in 1..Len(e.bytype) : StochOk(e.bytype[k].r, pts, LAMBDA i : pts[i].type = e.bytype[k].ty)
  /\ \A k \in 1..Len(e.byname) : StochOk(e.byname[k].r, pts, LAMBDA i : pts[i].type = e.byname[k].ty)
  /\ e.unknown # ""
GeoLossOk(e) == /\ InsOk(e)
                /\ StochOk(e.stoch, pts, LAMBDA i : e.ins[i]) /\ ContOk(e.cont, pts, LAMBDA i : e.ins[i])
\* decay products: of one channel, only for a decay, sharing its energy
DecayOk(e) ==
  LET n == Cardinality({i \in 1..Len(pts) : pts[i].type = DecayT}) IN
  IF n = 0 THEN e.products = << >>
  ELSE /\ Len(e.products) = 3 * n
       /\ n = 1 => LET b == pts[CHOOSE i \in 1..Len(pts) : pts[i].type = DecayT] IN
             /\ NClose(NSum([k \in 1..3 |-> e.products[k].E]), b.E, "1e-6", 0)
             /\ \A k \in 1..3 : e.products[k].p = b.p /\ e.products[k].t = b.t
Why(x, b) == IF b THEN TRUE ELSE PrintT(<<"why", l, x>>) /\ FALSE   \* for the log only
GeoOk(e) ==
  /\ Why("ins", InsOk(e))
  /\ Why("track", e.track = SelectSeq([i \in 1..Len(pts) |-> IF e.ins[i] THEN RelPts[i] ELSE << >>], LAMBDA x : x # << >>))
  /\ Why("entry", EntryOk(e.g, W, pts, IF e.noentry THEN pts[1] ELSE e.entry, e.noentry))
  /\ Why("exit", ExitOk(e.g, W, pts, IF e.noexit THEN pts[1] ELSE e.exit, e.noexit))
  /\ Why("closest", ClosestOk(e.g, W, pts, e.closest))
  /\ Why("hit", HitOk(e.g, pts, e.hit))
  /\ Why("elost", ELostOk(e, pts))
QueryOk(e) ==
  CASE e.e = "getters"  -> GettersOk(e)
    [] e.e = "energy"   -> EnergyOk(e)
    [] e.e = "distance" -> DistanceOk(e)
    [] e.e = "losses"   -> LossesOk(e)
    [] e.e = "geoloss"  -> GeoLossOk(e)
    [] e.e = "decay"    -> DecayOk(e)
    [] e.e = "geo"      -> GeoOk(e)
    [] OTHER -> FALSE
TraceInit == l = 1 /\ W = << >> /\ pts = << >>
TraceNext ==
  /\ l <= TraceLen /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.e = "world" -> W' = e.sectors /\ pts' = << >>
       [] e.e = "push"  -> W' = W /\ pts' = Append(pts, e.pt)
       [] e.e = "clear" -> W' = W /\ pts' = << >>
       [] OTHER -> W' = W /\ pts' = pts /\ (IF QueryOk(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>))
=============================================================================

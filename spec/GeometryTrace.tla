--------------------------- MODULE GeometryTrace ---------------------------
(* Events: one ray put to one geometry, with everything the library answers. *)
EXTENDS Geometry, TraceBase
VARIABLE l

(* border pair *)
DistOk(e) ==
  /\ RayOk(e.g, e.p, e.d, e.dist, e.scale, e.w)
  /\ RayOk(e.g, e.p, VScale(-1, e.d), e.back, e.scale, e.w)

(* location predicates, all derived from the border pairs *)
LocOk(e) ==
  LET k == Classify(e.dist) IN
  /\ WellFormed(e.dist) /\ WellFormed(e.back)
  /\ e.inside  = (k = "inside")
  /\ e.infront = (k = "infront")
  /\ e.behind  = (k = "behind")
  /\ e.location = (CASE k = "infront" -> 0 [] k = "inside" -> 1 [] OTHER -> 2)
  /\ e.entering = (k = "inside" /\ Classify(e.back) = "behind")
  /\ e.leaving  = (k = "behind" /\ Classify(e.back) = "inside")
  /\ NClose(e.approach, NDot(VSub(e.g.c, e.p), e.d), "1e-12", Tol(e.scale))

(* walking: from p, the borders seen after a step of length t along the ray *)
WalkOk(e) == RayOk(e.g, VAdd(e.p, VScale(e.t, e.d)), e.d, e.dist, e.scale, e.w)

Which == IOEnv.GEO
Ok(e) == CASE e.e = "ray" -> (IF Which = "dist" THEN DistOk(e) ELSE
                               LocOk(e) /\ (DistOk(e)))
           [] e.e = "walk" -> WalkOk(e)
           [] OTHER -> FALSE

TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

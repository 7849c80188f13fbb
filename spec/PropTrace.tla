------------------------------ MODULE PropTrace ------------------------------
(* Runs of the real Propagator, iteration by iteration.                      *)
EXTENDS PropLoop, TraceBase
VARIABLES l, W, st, cur, arg, used
Why(x, b) == IF b THEN TRUE ELSE PrintT(<<"why", l, x>>) /\ FALSE
Last(s) == s[Len(s)]
ScaleAt(s) == NAdd(1, NAdd(NAbs(s.s), VNorm(s.p)))
Same(q, s) == q.p = s.p /\ q.d = s.d /\ NEq(q.E, s.E) /\ NEq(q.t, s.t) /\ NEq(q.s, s.s) /\ q.ty = s.ty
\* numbers drawn are used once, for one purpose
Uses(e) == (IF e.dec = << >> THEN << >> ELSE <<Last(e.dec).rnd>>) \o <<Last(e.int).rnd>>
           \o (IF e.ms = << >> THEN << >> ELSE Last(e.ms).rnd)
           \o (IF e.rand = << >> THEN << >> ELSE <<Last(e.rand).rnd>>)
           \o (IF e.defl = << >> THEN << >> ELSE Last(e.defl).rnd)
DrawnOk(e) == LET u == Uses(e) IN
  /\ \A i \in 1..Len(u) : \E j \in 1..Len(e.rnd) : e.rnd[j] = u[i]
  /\ \A i, j \in 1..Len(u) : i # j => u[i] # u[j]

(* the step from st to q through sector w, with the proposals made in c: what may have ended it *)
Ends_(e, c, w) ==
  LET q == e.pts[1]
      S == W[w]
      tolS == NMul("1e-9", ScaleAt(q))
      scat == S.ms /\ e.ms # << >>
      o == Last(e.ms).o
      u == IF scat THEN Turn(st.d, o[1], o[2]) ELSE st.d
      dn == IF scat THEN Turn(st.d, o[3], o[4]) ELSE st.d
      L == NSub(q.s, st.s)
      Ed == IF W[c].decay THEN e.dec[1].r ELSE 0
      Es == e.int[1].r
      Em == Least(W, c, arg.mine)
      T == Highest(Ed, Em, Es)
      which == Chosen(Ed, Em, Es)
      Ec == IF e.rand = << >> THEN q.E ELSE Last(e.rand).Ef
      r == Reach(W, w, st, u, T, arg.maxd)
      X == NMul(S.rho, L)
      vague == Unclear(W, st.p, u)
      \* energies over the position resolution of a step which ends at a border
      soft == NAdd(NMul(NMul(NAdd(S.a, NMul(S.b, st.E)), S.rho), "0.0011"), NMul("1e-9", st.E))
      eps == NAdd(NMul("1e-9", st.E), NMul(tolS, NMul(S.rho, NAdd(S.a, NMul(S.b, st.E)))))
      sound ==
        /\ (IF S.ms THEN e.ms # << >> /\ NEq(Last(e.ms).Ei, st.E) /\ (NEq(Last(e.ms).Ef, Ec) \/ Len(e.ms) > 200) ELSE TRUE) \* after 200 attempts the particle goes to the border
        /\ VClose(q.p, VAdd(st.p, VScale(L, u)), 0, tolS)
        /\ VClose(q.d, dn, 0, "1e-7")
        /\ NGe(L, 0) /\ NLe(Ec, NAdd(st.E, eps))
        /\ q.ty = st.ty /\ q.hash = "0"
        /\ (e.rand # << >> => NEq(Last(e.rand).Ei, st.E) /\ NEq(Last(e.rand).min, Em) /\ NEq(q.E, Last(e.rand).r))
        /\ NLe(NAbs(NSub(Ec, After(S, st.E, X))), soft)
        /\ NClose(NSub(q.t, st.t), Elapsed(S, st.E, Ec, X), "1e-6", NAdd(NMul("1e-12", q.t), NAdd(NDiv("0.0011", SPEED), IF S.exact THEN NMul(S.kt, NDiv(eps, S.rho)) ELSE 0)))
        /\ NLe(L, NAdd(r.max, tolS))
        /\ NLe(L, NAdd(r.int, NAdd("0.0011", tolS)))
        /\ (vague \/ (NGe(r.border, 0) /\ NLe(L, NAdd(r.border, NAdd(tolS, "1e-6")))))
      exactE == NClose(Ec, After(S, st.E, X), 0, eps)
      randOk(ran) == (W[w].crand # "0") = ran
  IN IF ~sound THEN {}
     ELSE (IF exactE /\ NClose(L, r.int, "1e-9", tolS) /\ NEq(Ec, T) /\ (IF which = "min" THEN e.rand = << >> ELSE randOk(e.rand # << >>)) THEN {which} ELSE {})
          \cup (IF exactE /\ NClose(L, r.max, "1e-9", tolS) /\ randOk(e.rand # << >>) THEN {"max"} ELSE {})
          \cup (IF (vague \/ NClose(L, r.border, "1e-9", NAdd(tolS, "1e-6"))) /\ randOk(e.rand # << >>) THEN {"border"} ELSE {})

ActOk(e, w, kind, Em) ==
  LET q == e.pts[1] n == Len(e.pts) S == W[w] IN
  CASE kind = "stoch" ->
         LET rate == NSum([k \in 1..Len(S.cross) |-> NSum([j \in 1..Len(S.cross[k].rates) |-> S.cross[k].rates[j].r])]) IN
         IF NEq(rate, 0) THEN n = 1 /\ e.loss = << >>
         ELSE /\ n = 2 /\ Len(e.loss) = 1
              /\ LET f == e.loss[1] x == e.pts[2] IN
                 /\ NEq(f.E, q.E)
                 /\ \E k \in 1..Len(S.cross) : /\ S.cross[k].t = f.t
                                               /\ \E j \in 1..Len(S.cross[k].rates) : S.cross[k].rates[j].h = f.h /\ NGt(S.cross[k].rates[j].r, 0)
                 /\ x.type = f.t /\ x.hash = f.h /\ NClose(x.E, NMul(q.E, NSub(1, f.v)), "1e-14", 0)
                 /\ x.p = q.p /\ NEq(x.t, q.t) /\ NEq(x.s, q.s) /\ x.ty = q.ty
                 /\ IF \E k \in 1..Len(S.defl) : S.defl[k] = f.t
                    THEN /\ Len(e.defl) = 1
                         /\ LET y == e.defl[1] IN
                            /\ y.t = f.t /\ y.comp = f.h /\ NEq(y.Ei, q.E) /\ NClose(y.Ef, x.E, "1e-14", 0)
                            /\ \/ VClose(x.d, Turn(q.d, NMul(NSin(y.zen), NCos(y.az)), NMul(NSin(y.zen), NSin(y.az))), 0, "2e-6")
                               \/ NGt(y.zen, "1.5707") /\ NClose(NDot(x.d, q.d), NCos(y.zen), 0, "1e-6")
                    ELSE e.defl = << >> /\ x.d = q.d
    [] kind = "decay" -> n = 2 /\ e.loss = << >> /\ e.pts[2].type = DecayT /\ e.pts[2].hash = "0" /\ Same(e.pts[2], q)
    [] OTHER -> n = 1 /\ e.loss = << >> /\ e.defl = << >>
(* where one iteration may lead: pairs <<sector, stopped>> *)
Outcomes(e) ==
  UNION { UNION { LET q == e.pts[1]
             Em == Least(W, cs[1], arg.mine)
             kinds == {k \in Ends_(e, cs[1], w) : ActOk(e, w, k, Em)}
         IN UNION { CASE k = "border" -> {<<c2, LeavesFor(W, w, c2, arg.hc)>> : c2 \in Sectors(W, q.p, q.d)}
                      [] k = "stoch" -> {<<w, NLe(Last(e.pts).E, Em)>>}
                      [] OTHER -> {<<w, TRUE>>} : k \in kinds }
         : w \in Sectors(W, st.p, IF W[cs[1]].ms \/ e.ms # << >> THEN (IF e.ms = << >> THEN st.d ELSE Turn(st.d, Last(e.ms).o[1], Last(e.ms).o[2])) ELSE st.d)
                 \cup (IF e.ms = << >> THEN {} ELSE {i \in Sectors(W, st.p, st.d) : ~W[i].ms}) }
    : cs \in {x \in cur : /\ ~x[2]
                          /\ (W[x[1]].decay => Len(e.dec) = 1 /\ NEq(e.dec[1].E, st.E) /\ NEq(e.dec[1].density, W[x[1]].rho))
                          /\ (~W[x[1]].decay => e.dec = << >>) /\ Len(e.int) = 1 /\ NEq(e.int[1].E, st.E)
                          /\ ~Exhausted(st, Least(W, x[1], arg.mine), arg.maxd)} }
Begin(e) == { <<c, FALSE>> : c \in Sectors(W, e.init.p, e.init.d) }
Fresh(x, s, a) == IF Exhausted(s, Least(W, x[1], a.mine), a.maxd) THEN <<x[1], TRUE>> ELSE x
TraceInit == l = 1 /\ W = << >> /\ st = << >> /\ cur = {} /\ arg = << >> /\ used = {}
Broken == used = {"broken"}
TraceNext ==
  /\ l <= TraceLen /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.e = "world" -> W' = e.sectors /\ st' = << >> /\ cur' = {} /\ arg' = << >> /\ used' = {}
       [] e.e = "run" ->
            LET a == [maxd |-> e.maxd, mine |-> e.mine, hc |-> e.hc]
                ok == e.n > 0 /\ Same(e.first, e.init) /\ e.first.type = Cont IN
            /\ W' = W /\ st' = e.init /\ arg' = a
            /\ cur' = {Fresh(x, e.init, a) : x \in Begin(e)}
            /\ used' = IF ok \/ e.n = 0 THEN {} ELSE {"broken"}
            /\ IF ok \/ e.n = 0 THEN TRUE ELSE PrintT(<<"REJECT", l>>)
       [] e.e = "iter" /\ Broken -> UNCHANGED <<W, st, cur, arg, used>>
       [] e.e = "iter" /\ ~Broken ->
            LET ok1 == e.pts # << >> /\ e.int # << >>
                out == IF ok1 THEN Outcomes(e) ELSE {}
                ok == out # {} /\ Why("drawn", DrawnOk(e))
            IN /\ W' = W /\ arg' = arg
               /\ st' = IF ok1 THEN Last(e.pts) ELSE st
               /\ cur' = {Fresh(x, Last(e.pts), arg) : x \in out}
               /\ used' = IF ok THEN used ELSE {"broken"}
               /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", l>>)
       [] OTHER -> \* end
            LET ok == \/ Broken
                      \/ e.thrown = "logic_error" /\ cur = {}
                      \/ e.thrown = "" /\ e.left = 0 /\ (\E x \in cur : x[2])
                         /\ (e.model => Len(e.got) = Len(e.expect) /\ \A i \in 1..Len(e.got) : \A k \in 1..5 : NClose(e.got[i][k], e.expect[i][k], "1e-9", "1e-9"))
            IN /\ UNCHANGED <<W, st, arg>> /\ cur' = {} /\ used' = {}
               /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

--------------------------- MODULE RandomSourceTrace ---------------------------
EXTENDS TraceBase, Num, Integers
Seeds == {} Slots == 1..3 Owns == 1..3
VARIABLES place, source, saved, own, l, seen
INSTANCE RandomSource
(* seen: the value met at each place of the default engine                   *)
TraceInit == RInit /\ l = 1 /\ seen = << >>
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
At(r, n) == <<r, n>>
InUnit(x) == NGe(x, 0) /\ NLt(x, 1)
(* values v of consecutive draws from the default engine at p                *)
Fits(p, v) == \A i \in 1..Len(v) : InUnit(v[i]) /\ (At(p[1], p[2] + i - 1) \in DOMAIN seen => seen[At(p[1], p[2] + i - 1)] = v[i])
Learn(p, v) == [q \in DOMAIN seen \cup {At(p[1], p[2] + i - 1) : i \in 1..Len(v)} |->
                  IF q \in DOMAIN seen THEN seen[q] ELSE v[q[2] - p[2] + 1]]
(* the own generator k answers its n-th draw with Own(k)[n]; it is logged as *)
(* the number of the draw                                                    *)
OwnFits(v) == \A i \in 1..Len(v) : v[i] = own[source] + i
(* steps: the distance of the engine from where it was, found by stepping a  *)
(* copy; -1 if it cannot be reached                                          *)
Ok(e) == CASE e.k = "draw" -> IF source = 0 THEN e.steps = 2 * Len(e.v) /\ Fits(place, e.v) ELSE e.steps = 0 /\ OwnFits(e.v)
           [] e.k = "lib" -> /\ e.thrown = ""
                             /\ IF source = 0 THEN e.steps >= 0 /\ e.steps % 2 = 0 /\ e.drawn = 0 ELSE e.steps = 0 /\ e.drawn >= 0
                             /\ e.source = source
           [] e.k = "seed" -> e.isseed
           [] e.k = "restore" -> e.same
           [] e.k = "parted" -> e.equal         \* two equal histories gave equal results
           [] OTHER -> e.steps = 0
vars == <<place, source, saved, own, l, seen>>
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
     /\ CASE e.k = "draw" -> Advance(Len(e.v))
          [] e.k = "lib" -> Advance(IF source = 0 THEN e.steps \div 2 ELSE e.drawn)
          [] e.k = "seed" -> Seed(e.s)
          [] e.k = "save" -> Save(e.s)
          [] e.k = "restore" -> Restore(e.s)
          [] e.k = "own" -> Install(e.g)
          [] e.k = "default" -> Uninstall
          [] e.k = "parted" -> UNCHANGED <<place, source, saved, own>>
          [] e.k = "fresh" -> place' = place /\ source' = 0 /\ saved' = [s \in Slots |-> << >>] /\ own' = [k \in Owns |-> 0]
     /\ seen' = IF e.k = "draw" /\ source = 0 THEN Learn(place, e.v) ELSE seen
  /\ l' = l + 1
=============================================================================

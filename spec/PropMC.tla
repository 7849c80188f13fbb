------------------------------- MODULE PropMC -------------------------------
(* Propagation along a line through boxes, in whole numbers (lengths and     *)
(* energies in halves): every combination of proposals in the first Steps    *)
(* iterations.  dE/dX = 1, time = length.  Interactions lose half of the     *)
(* energy or nothing and may turn the particle round.                        *)
EXTENDS PropLoop, TLC, Json
CONSTANT Steps, Share, Shares
Bx(lo, hi, h, rho, m, dec, back) == [lo |-> lo, hi |-> hi, h |-> h, rho |-> rho, m |-> m, dec |-> dec, back |-> back]
Worlds == <<
  << Bx(-400, 400, 0, 1, 4, FALSE, FALSE) >>,
  << Bx(-400, 400, 0, 1, 4, TRUE, TRUE), Bx(4, 12, 1, 2, 4, FALSE, FALSE) >>,
  << Bx(8, 12, 3, 2, 8, TRUE, TRUE), Bx(4, 16, 1, 1, 4, FALSE, FALSE), Bx(-400, 400, 0, 2, 4, FALSE, FALSE) >>,
  << Bx(-400, 400, 0, 1, 4, FALSE, FALSE), Bx(4, 8, 2, 2, 4, FALSE, TRUE), Bx(8, 12, 1, 1, 12, TRUE, FALSE) >>,
  << Bx(-8, 8, 2, 1, 4, TRUE, TRUE), Bx(-400, 400, 1, 2, 4, FALSE, FALSE), Bx(8, 20, 3, 1, 4, FALSE, FALSE) >> >>
Starts == {<<0, 1>>, <<6, 1>>, <<8, -1>>}
VARIABLES w, st, sec, args, pts, ch, done
vars == <<w, st, sec, args, pts, ch, done>>
Contains(b, x, d) == IF d > 0 THEN b.lo <= x /\ x < b.hi ELSE b.lo < x /\ x <= b.hi
At(x, d) == CHOOSE i \in 1..Len(Worlds[w]) : Contains(Worlds[w][i], x, d) /\ \A j \in 1..Len(Worlds[w]) : Contains(Worlds[w][j], x, d) => Worlds[w][j].h <= Worlds[w][i].h
Hit(b, x, d) == IF d > 0 THEN (IF b.lo > x THEN b.lo - x ELSE IF b.hi > x THEN b.hi - x ELSE -1)
                ELSE (IF b.hi < x THEN x - b.hi ELSE IF b.lo < x THEN x - b.lo ELSE -1)
Bord(c) == LET s == {Hit(Worlds[w][i], st.x, st.d) : i \in {c} \cup {j \in 1..Len(Worlds[w]) : Worlds[w][j].h > Worlds[w][c].h}} \ {-1}
           IN CHOOSE a \in s : \A b \in s : a <= b
\* at its own border a particle which was turned round continues in the sector before it
Stay == /\ Contains(Worlds[w][sec], st.x, st.d)
        /\ \A j \in 1..Len(Worlds[w]) : Worlds[w][j].h > Worlds[w][sec].h => ~Contains(Worlds[w][j], st.x, st.d)
Now == IF Stay THEN sec ELSE At(st.x, st.d)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Pt(s, ty) == << s.x, s.d, s.E, s.s, ty >>
MCInit == /\ w \in 1..Len(Worlds) /\ \E z \in Starts : st = [x |-> z[1], d |-> z[2], E |-> 40, t |-> 0, s |-> 2]
          /\ args \in [maxd : {0, 2, 10, 26, 2000}, mine : {0, 14}, hc : {0, 1, 2}]
          /\ (w * 31 + st.x * 7 + args.maxd * 3 + args.mine + args.hc) % Shares = Share
          /\ sec = At(st.x, st.d) /\ pts = << Pt(st, Cont) >> /\ ch = << >> /\ done = FALSE
Iterate ==
  LET c == Worlds[w][sec]
      Em == Max(args.mine, c.m) IN
  /\ ~done
  /\ IF st.E < Em \/ st.s > args.maxd THEN done' = TRUE /\ UNCHANGED <<w, st, sec, args, pts, ch>>
     ELSE \E es \in (IF Len(ch) < Steps THEN {Max(c.m, st.E - 4), Max(c.m, st.E - 12)} ELSE {c.m}),
             ed \in (IF ~c.dec THEN {0} ELSE IF Len(ch) < Steps THEN {c.m, Max(c.m, st.E - 8)} ELSE {c.m}) :
       LET T == Max(ed, Max(Em, es))
           which == Chosen(ed, Em, es)
           k == Worlds[w][Now]
           Li == (st.E - T) \div k.rho
           Lb == Bord(Now)
           Lm == args.maxd - st.s
           kind == IF Li <= Lb /\ Li <= Lm THEN which ELSE IF Lm <= Lb THEN "max" ELSE "border"
           L == Min(Li, Min(Lb, Lm))
           q == [st EXCEPT !.x = @ + L * st.d, !.E = @ - k.rho * L, !.t = @ + L, !.s = @ + L]
       IN /\ UNCHANGED <<w, args>>
          /\ CASE kind = "stoch" ->
                   \E v \in (IF q.E % 4 = 0 /\ Len(ch) < Steps THEN {0, 1} ELSE {0}) :
                     LET r == [q EXCEPT !.E = IF v = 1 THEN @ \div 2 ELSE @, !.d = IF k.back THEN 0 - @ ELSE @] IN
                     /\ st' = r /\ pts' = pts \o << Pt(q, Cont), Pt(r, 2) >> /\ ch' = Append(ch, << es, ed, v >>)
                     /\ sec' = Now /\ done' = (r.E <= Em)
               [] kind = "border" ->
                     /\ st' = q /\ pts' = Append(pts, Pt(q, Cont)) /\ ch' = Append(ch, << es, ed, 0 >>)
                     /\ sec' = At(q.x, q.d) /\ done' = (Worlds[w][Now].h > args.hc /\ Worlds[w][At(q.x, q.d)].h < args.hc)
               [] kind = "decay" ->
                     /\ st' = q /\ pts' = pts \o << Pt(q, Cont), Pt(q, DecayT) >> /\ ch' = Append(ch, << es, ed, 0 >>) /\ sec' = Now /\ done' = TRUE
               [] OTHER ->
                     /\ st' = q /\ pts' = Append(pts, Pt(q, Cont)) /\ ch' = Append(ch, << es, ed, 0 >>) /\ sec' = Now /\ done' = TRUE
MCNext == Iterate
(* what every history of the model satisfies *)
NeverGains == \A i \in 1..(Len(pts) - 1) : pts[i+1][3] <= pts[i][3] /\ pts[i+1][4] >= pts[i][4]
Straight == \A i \in 1..(Len(pts) - 1) : pts[i+1][1] - pts[i][1] = pts[i][2] * (pts[i+1][4] - pts[i][4])
Within == st.s <= Max(2, args.maxd)
OneDecay == \A i \in 1..Len(pts) : pts[i][5] = DecayT => i = Len(pts) /\ done
InSector == Contains(Worlds[w][sec], st.x, st.d) \/ done \/ \E i \in 1..Len(Worlds[w]) : st.x \in {Worlds[w][i].lo, Worlds[w][i].hi}
NoHigherSkipped == \A i \in 1..(Len(pts) - 1) : \A j \in 1..Len(Worlds[w]) : \* borders of the highest sectors are never stepped over
   LET b == Worlds[w][j] a == pts[i][1] z == pts[i+1][1] IN
   (\A k \in 1..Len(Worlds[w]) : Worlds[w][k].h <= b.h) => ~(Min(a, z) < b.lo /\ b.lo < Max(a, z)) /\ ~(Min(a, z) < b.hi /\ b.hi < Max(a, z))
Terminates == <>done
Fair == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Behaviour == done => PrintT("GEN " \o ToJson([w |-> Worlds[w], init |-> [x |-> pts[1][1], d |-> pts[1][2], E |-> pts[1][3], t |-> 0, s |-> pts[1][4]],
                                              maxd |-> args.maxd, mine |-> args.mine, hc |-> args.hc, ch |-> ch, pts |-> pts]))
=============================================================================

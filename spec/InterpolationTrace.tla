------------------------- MODULE InterpolationTrace -------------------------
EXTENDS Interpolation, TraceBase
VARIABLE l
\* the table a definition means: what follows from its arguments and from the function at its nodes
Swapped(d) == IF d.cells /\ NGt(d.lo, d.hi) THEN [d EXCEPT !.lo = d.hi, !.hi = d.lo] ELSE d
Bound(k, n) == IF k < 1 THEN 1 ELSE IF k > n THEN n ELSE k
Table(d) ==
  LET s == Swapped(d)  n == Len(d.xs)  lo == IF d.xlog THEN NLog(s.lo) ELSE s.lo  hi == IF d.xlog THEN NLog(s.hi) ELSE s.hi IN
  [d EXCEPT !.lo = lo, !.hi = hi, !.r = Bound(d.r, n), !.ry = Bound(d.ry, n), !.ys = IF d.ylog THEN [i \in 1..Len(d.ys) |-> Log(d.ys[i])] ELSE d.ys,
            !.xs = IF d.cells THEN [i \in 1..n |-> Node(n, lo, hi, i)] ELSE d.xs]
Table2(d) == [Table(d) EXCEPT !.rows = [i \in 1..Len(d.rows) |-> Table(d.rows[i])]]
\* the function was asked at the nodes
NodesOk(d) == ~d.cells \/ LET t == Table(d) IN \A i \in 1..Len(d.xs) : NClose(In(t, d.xs[i]), t.xs[i], "1e-12", NMul("1e-12", NAdd(NAbs(t.lo), NAbs(t.hi))))
QOk(t, q, least) ==
  CASE q.q = "at" -> Agrees(q.got, At(t, q.x), least) [] q.q = "inv" -> Agrees(q.got, Inverse(t, q.x), 0)
    [] q.q = "at2" -> Agrees(q.got, At2(t, q.x1, q.x), least) [] q.q = "inv2" -> Agrees(q.got, Inverse2(t, q.x1, q.x), 0)
TabOk(e) == LET d == e.def IN
  /\ Must("stored and read back", e.stored)
  /\ Must(<<"thrown", e.thrown>>, e.thrown = "")
  /\ IF "rows" \in DOMAIN d THEN \A i \in 1..Len(d.rows) : Must("nodes", NodesOk(d.rows[i])) ELSE TRUE
  /\ Must("nodes", NodesOk(d))
  /\ LET t == IF "rows" \in DOMAIN d THEN Table2(d) ELSE Table(d) IN
     \A i \in 1..Len(e.qs) : Must(<<"answer", e.qs[i]>>, QOk(t, e.qs[i], NMul("1e-12", e.scale)))
  /\ Must("answers before and after", \A i \in 1..Len(e.qs) : IF e.exact THEN e.qs[i].got = e.qs[i].first ELSE e.rational \/ NClose(e.qs[i].got, e.qs[i].first, "1e-7", NMul("1e-7", e.scale)))
  /\ Must("answers in other orders", \A i \in 1..Len(e.qs) : e.qs[i].got = e.qs[i].again)
\* a file that is missing or cut off is refused
BadOk(e) == Must("refused", ~e.loaded)
\* splines keep their points when stored
SplineOk(e) == Must("spline", e.thrown = "" /\ \A i \in 1..Len(e.vals) : NClose(e.vals[i][1], e.vals[i][2], "1e-12", NMul("1e-12", e.scale)))
Ok(e) == CASE e.k = "tab" -> TabOk(e) [] e.k = "bad" -> BadOk(e) [] e.k = "spline" -> SplineOk(e)
TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

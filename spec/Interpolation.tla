--------------------------- MODULE Interpolation ---------------------------
(* Interpolation tables: a function is known at nodes and taken, in between,  *)
(* from the polynomial (or rational function) through the r nodes around the  *)
(* point; the inverse does the same with nodes and values exchanged.          *)
(* A one-dimensional table t: xs, ys (nodes and values in the coordinates of  *)
(* interpolation), r and ry (number of nodes that are used, ry for the        *)
(* inverse), rat (rational), xlog, ylog (coordinates are logarithms), lo, hi. *)
(* A two-dimensional one: nodes xs of the second argument, a row for each.    *)
(* Nodes of a table over an interval are the centres of n equal cells.        *)
EXTENDS Num, Integers, Sequences
CUT == -300                                        \* logarithm of what is not positive
Log(x) == IF NLe(x, 0) THEN CUT ELSE NLog(x)
Exp(x) == IF NLe(x, -299) THEN 0 ELSE NExp(x)
Step(n, lo, hi) == NDiv(NSub(hi, lo), n)
Node(n, lo, hi, i) == NAdd(lo, NMul(NSub(i, "0.5"), Step(n, lo, hi)))
(* ---------------------------------------------------------------- windows *)
RECURSIVE Whole(_, _, _)
Whole(v, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF NLe(m, v) THEN Whole(v, m, b) ELSE Whole(v, a, m)
Clamp(s, n, r) == IF s < 0 THEN 0 ELSE IF s > n - r THEN n - r ELSE s
\* towards zero, and what rounding may make of it
Starts(v, n, r) == LET at(w) == IF NLt(w, 1) THEN 0 ELSE IF NLe(n, w) THEN n ELSE Whole(w, 1, n + 1) IN { Clamp(at(NAdd(v, d)), n, r) : d \in {"-1e-9", "0", "1e-9"} }
\* windows (number of nodes before them) for a point at `a' cells from the lower end
CellWindows(a, n, r) == Starts(NSub(a, NMul("0.5", r - 1)), n, r)
\* the interval between the nodes around a point (its left node); points outside belong to the one at the end
RECURSIVE Between(_, _, _, _, _)
Between(x, xs, i, j, up) == IF j - i <= 1 THEN i ELSE LET m == (i + j) \div 2 IN IF NGt(x, xs[m]) = up THEN Between(x, xs, m, j, up) ELSE Between(x, xs, i, m, up)
Left(x, xs) == Between(x, xs, 1, Len(xs), NGt(xs[Len(xs)], xs[1]))
\* nearer node of that interval: 0 the left, 1 the right, both if there is no telling
Nearer(x, xs, i) ==
  IF i + 1 > Len(xs) THEN {0}
  ELSE LET a == NAbs(NSub(x, xs[i]))  b == NAbs(NSub(xs[i + 1], x)) IN IF NClose(a, b, "1e-9", 0) THEN {0, 1} ELSE IF NLt(a, b) THEN {0} ELSE {1}
NodeWindows(x, xs, r) == LET i == Left(x, xs)  n == Len(xs) IN { IF r = 1 THEN Clamp(i - 1 + d, n, 1) ELSE Clamp(i - 1 - ((r - 1 - d) \div 2), n, r) : d \in Nearer(x, xs, i) }
(* ------------------------------------------------------------- polynomials *)
Part(s, w, r) == [k \in 1..r |-> s[w + k]]
RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE NMul(s[k], Prod(s, k - 1))
Weight(xs, x, i) == LET n == Len(xs) IN Prod([k \in 1..n |-> IF k = i THEN 1 ELSE NDiv(NSub(x, xs[k]), NSub(xs[i], xs[k]))], n)
Lagrange(xs, ys, x) == NSum([i \in 1..Len(xs) |-> NMul(ys[i], Weight(xs, x, i))])
LagrangeScale(xs, ys, x) == NSum([i \in 1..Len(xs) |-> NAbs(NMul(ys[i], Weight(xs, x, i)))])
\* Bulirsch and Stoer: the rational function through the nodes a..b
RECURSIVE Rational(_, _, _, _, _)
Rational(xs, ys, x, a, b) ==
  IF b < a THEN 0 ELSE IF a = b THEN ys[a]
  ELSE LET p == Rational(xs, ys, x, a + 1, b)  q == Rational(xs, ys, x, a, b - 1)  c == Rational(xs, ys, x, a + 1, b - 1)  d == NSub(p, q) IN
       IF NEq(d, 0) THEN p
       ELSE NAdd(p, NDiv(d, NSub(NMul(NDiv(NSub(x, xs[a]), NSub(x, xs[b])), NSub(1, NDiv(d, NSub(p, c)))), 1)))
Through(xs, ys, x, rat) == IF \E i \in 1..Len(xs) : NEq(x, xs[i]) THEN ys[CHOOSE i \in 1..Len(xs) : NEq(x, xs[i])] ELSE IF rat THEN Rational(xs, ys, x, 1, Len(xs)) ELSE Lagrange(xs, ys, x)
\* a value and by how much rounding can change it
V(v, tol) == [v |-> NAdd(v, 0), tol |-> NAdd(tol, 0)]
\* (es: uncertainties of the values ys)
Fit(xs, ys, es, x, rat) ==
  V(Through(xs, ys, x, rat), IF rat THEN LET zs == [i \in 1..Len(ys) |-> NAdd(NMul(ys[i], IF i % 2 = 1 THEN "1.0000000001" ELSE "0.9999999998"), es[i])] IN
                                         NAdd(NMul(100, NAbs(NSub(Through(xs, ys, x, rat), Through(xs, zs, x, rat)))), NSum([i \in 1..Len(ys) |-> NAdd(NMul("1e-6", NAbs(ys[i])), NMul(10, es[i]))]))
                             ELSE NAdd(NMul("1e-11", NAdd(LagrangeScale(xs, ys, x), "1e-300")), LagrangeScale(xs, es, x)))
\* where a logarithm stands for zero, zero itself is interpolated
Zeros(ys) == \E i \in 1..Len(ys) : NEq(ys[i], CUT)
Value(xs, ys, es, x, rat, ylog) ==
  IF ylog /\ Zeros(ys) THEN LET f == Fit(xs, [i \in 1..Len(ys) |-> Exp(ys[i])], [i \in 1..Len(ys) |-> IF NLe(1, es[i]) THEN "1e200" ELSE NMul(Exp(ys[i]), es[i])], x, rat) IN V(NMax(0, f.v), f.tol)
  ELSE LET f == Fit(xs, ys, es, x, rat) IN IF ylog THEN V(Exp(f.v), IF NLe(1, f.tol) THEN "1e200" ELSE NMul(NAbs(Exp(f.v)), NAdd(f.tol, "1e-13"))) ELSE f
(* ------------------------------------------------------------------ tables *)
In(t, x) == IF t.xlog THEN Log(x) ELSE x
Es(t) == IF "es" \in DOMAIN t THEN t.es ELSE [i \in 1..Len(t.ys) |-> 0]
\* all values that a table may give at x
At(t, x) == LET u == In(t, x)  n == Len(t.xs) IN
  { Value(Part(t.xs, w, t.r), Part(t.ys, w, t.r), Part(Es(t), w, t.r), u, t.rat, t.ylog) : w \in IF t.cells THEN CellWindows(IF n = 1 /\ NEq(t.lo, t.hi) THEN 0 ELSE NDiv(NSub(u, t.lo), Step(n, t.lo, t.hi)), n, t.r) ELSE NodeWindows(u, t.xs, t.r) }
Limited(t, v) == NMax(t.lo, NMin(t.hi, v))
Inverse(t, y) == LET z == IF t.ylog THEN Log(y) ELSE y IN
  { LET ys == Part(t.ys, w, t.ry)  xs == Part(t.xs, w, t.ry)  no == [i \in 1..t.ry |-> 0]  f == Fit(ys, xs, no, z, t.rat)  g == Fit(ys, xs, no, NMul(z, "1.0000000000001"), t.rat)
        tol == NAdd(NAdd(f.tol, NAbs(NSub(f.v, g.v))), NMul("1e-13", NMax(NAbs(t.lo), NAbs(t.hi))))
        v == Limited(t, f.v) IN IF t.xlog THEN V(Exp(v), NMul(Exp(v), tol)) ELSE V(v, tol) : w \in NodeWindows(z, t.ys, t.ry) }
\* a row of a two-dimensional table gives the values in between (in the coordinate of interpolation)
Middle(S) == CHOOSE s \in S : TRUE
RowValue(t, row, x) == LET s == Middle(At(row, x)) IN V(IF t.ylog THEN Log(s.v) ELSE s.v, IF ~t.ylog THEN s.tol ELSE IF NLe(s.v, 0) THEN "1e200" ELSE NDiv(s.tol, s.v))
Column(t, x1) == LET v == [i \in 1..Len(t.rows) |-> RowValue(t, [t.rows[i] EXCEPT !.ylog = t.ylog], x1)] IN
  [f \in DOMAIN t \cup {"es"} |-> CASE f = "ys" -> [i \in 1..Len(v) |-> v[i].v] [] f = "es" -> [i \in 1..Len(v) |-> v[i].tol] [] OTHER -> t[f]]
At2(t, x1, x2) == At(Column(t, x1), x2)
Inverse2(t, x1, y) == Inverse(Column(t, x1), y)
Agrees(got, S, least) == \E s \in S : ~NFinite(s.v) \/ ~NFinite(s.tol) \/ NLe(NAbs(NSub(got, s.v)), NAdd(s.tol, least))
(* --------------------------------------------------------------- histories *)
\* a table stays what it was made of: copying, assigning, exchanging, storing and asking it change nothing
Ops == {"copy", "assign", "swap", "text", "binary", "ask"}
=============================================================================

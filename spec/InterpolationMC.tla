-------------------------- MODULE InterpolationMC --------------------------
(* What users rely on, on small tables: windows exist and surround the point, *)
(* nodes are reproduced, straight lines between two nodes stay between them,  *)
(* polynomials of a degree below r are exact and inverses of lines invert.    *)
EXTENDS Interpolation, TLC
CONSTANTS Nodes, Places
VARIABLES n, r, q, ys
vars == <<n, r, q, ys>>
Init == n \in 1..Nodes /\ r \in 1..n /\ q = 0 /\ ys \in [1..n -> -1..1]
Next == q < Places /\ q' = q + 1 /\ UNCHANGED <<n, r, ys>>
\* q runs over quarters of cells, from one cell before the table to one cell behind it
a == NDiv(q - 4, 4)
xs == [i \in 1..n |-> NSub(i, "0.5")]
WindowsFit == \A w \in CellWindows(a, n, r) \cup NodeWindows(a, xs, r) : w >= 0 /\ w + r <= n
Inside == NGt(a, xs[1]) /\ NLt(a, xs[n])
Surrounds == (r >= 2 /\ Inside) => \A w \in CellWindows(a, n, r) \cup NodeWindows(a, xs, r) : NLe(xs[w + 1], NAdd(a, "1e-6")) /\ NLe(NSub(a, "1e-6"), xs[w + r])
T(v) == [xs |-> xs, ys |-> v, r |-> r, ry |-> r, rat |-> FALSE, xlog |-> FALSE, ylog |-> FALSE, lo |-> 0, hi |-> n, cells |-> TRUE]
Reproduces == \A i \in 1..n : \A s \in At(T(ys), xs[i]) : NClose(s.v, ys[i], 0, "1e-9")
Straight == (r = 2 /\ Inside) => LET k == Left(a, xs) IN \A s \in At(T(ys), a) : NLe(NMin(ys[k], ys[k + 1]), NAdd(s.v, "1e-9")) /\ NLe(s.v, NAdd(NMax(ys[k], ys[k + 1]), "1e-9"))
P(x) == IF r = 1 THEN 2 ELSE IF r = 2 THEN NSub(NMul(3, x), 1) ELSE NAdd(NMul(x, x), NSub(1, x))
Exact == \A s \in At(T([i \in 1..n |-> P(xs[i])]), a) : NClose(s.v, P(a), "1e-9", "1e-9")
Line == [i \in 1..n |-> NSub(7, NMul(3, xs[i]))]
Inverts == r >= 2 => \A s \in Inverse(T(Line), NSub(7, NMul(3, a))) : NClose(s.v, NMax(0, NMin(n, a)), 0, "1e-9")
=============================================================================

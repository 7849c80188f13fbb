--------------------------- MODULE DocumentsTrace ---------------------------
EXTENDS Documents, TraceBase
Rho == INSTANCE Density
VARIABLE l
\* the profile that a density document means, as Density.tla wants it
Vec3(v, i) == << v[i], v[i + 1], v[i + 2] >>
From(v, i) == [j \in 1..Len(v) - i + 1 |-> v[i + j - 1]]
Dist(v) ==
  IF v[1] = "homogeneous" THEN [kind |-> v[1], m |-> v[2], axis |-> "cartesian", p0 |-> <<0, 0, 0>>, a |-> <<0, 0, 0>>]
  ELSE LET f == [kind |-> v[1], m |-> v[2], axis |-> v[3], p0 |-> Vec3(v, 4), a |-> Vec3(v, 7)]  rest == From(v, 10)  n == Len(rest) \div 2 IN
  CASE v[1] = "exponential" -> f @@ [sigma |-> rest[1], d0 |-> rest[2]] [] v[1] = "polynomial" -> f @@ [c |-> rest]
    [] OTHER -> f @@ [xs |-> [i \in 1..n |-> rest[i]], ys |-> [i \in 1..n |-> rest[n + i]]]
DensityHere(v, p) == LET g == Dist(v) IN
  \/ g.kind \in {"linear", "cubic"} /\ ~Rho!Known(g, Rho!Depth(g, p.x))
  \/ g.kind = "linear" /\ ~(NLe(g.xs[1], Rho!Depth(g, p.x)) /\ NLe(Rho!Depth(g, p.x), g.xs[Len(g.xs)]))
  \/ NClose(p.rho, Rho!Local(g, p.x), "1e-9", NMul("1e-11", Rho!LocalScale(g, p.x)))
Alike(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (i > 1 /\ NEq(a[i], b[i]))
Sorted(v) == v[1] \notin {"linear", "cubic"} \/ LET g == Dist(v) IN \A i \in 1..Len(g.xs) - 1 : NLt(g.xs[i], g.xs[i + 1])
Built(e, v) ==
  CASE e.kind \in {"cartesian", "spherical", "cuts"} -> Must("values", Len(v) = Len(e.got) /\ \A i \in 1..Len(v) : v[i] = e.got[i] \/ NEq(v[i], e.got[i]))
    [] e.kind = "geometry" -> Must("values", Alike(v, e.got))
    [] e.kind = "density" -> ~Sorted(v) \/ \A i \in 1..Len(e.at) : Must("density", DensityHere(v, e.at[i]))
    [] e.kind = "medium" -> TRUE
    [] OTHER -> \A i \in 1..Len(e.rates) : Must("multiplier", \A j \in 1..Len(e.rates[i][1]) : NClose(e.rates[i][1][j], NMul(v[3], e.rates[i][2][j]), "1e-14", 0))
\* shapes without volume may be refused or not
Flat(d) == \/ /\ \A k \in {"outer_radius", "inner_radius"} : k \in DOMAIN d /\ d[k].t \in {"int", "num"}
              /\ NEq(d["outer_radius"].s, d["inner_radius"].s)
           \/ \E k \in DOMAIN d \cap {"length", "width", "height"} : d[k].t \in {"int", "num"} /\ NEq(d[k].s, 0)
Ok(e) == LET m == Meaning(e.kind, e.doc) IN
  \/ e.kind = "geometry" /\ ~m.ok /\ Flat(e.doc)
  \/ /\ Must("refusal", m.ok <=> e.thrown = "")
     /\ m.ok => (Must("as built by code", e.same) /\ Built(e, m.v))
TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

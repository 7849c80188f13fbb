------------------------------ MODULE Vectors -------------------------------
(* Vector algebra and the two coordinate systems, over logged operations.    *)
EXTENDS Num, TLC, Sequences
Eps(v) == NMul("4e-16", NAdd("1e-300", VNorm(v)))
PI == "3.141592653589793"
ToCart(s) == << NMul(s[1], NMul(NCos(s[2]), NSin(s[3]))), NMul(s[1], NMul(NSin(s[2]), NSin(s[3]))), NMul(s[1], NCos(s[3])) >>
Near(u, v, rel) == NLe(VNorm(VSub(u, v)), NAdd("1e-300", NMul(rel, NAdd(VNorm(u), VNorm(v)))))
\* Cartesian to spherical and back
ConvOk(e) ==
  /\ NClose(e.s[1], VNorm(e.v), "1e-14", "1e-300")
  /\ NGe(e.s[1], 0) /\ NLe(NAbs(e.s[2]), "3.1415926535897936") /\ NGe(e.s[3], 0) /\ NLe(e.s[3], "3.1415926535897936")
  /\ (NEq(e.s[1], 0) => \A i \in 1..3 : NEq(e.s[i], 0))
  /\ Near(ToCart(e.s), e.v, "4e-8")                     \* acos near the poles
  /\ Near(e.back, e.v, "4e-8")
  /\ Near(e.back, ToCart(e.s), "1e-14")
  /\ e.self = e.v                                        \* Cartesian coordinates of a Cartesian vector
  /\ e.unit = << e.s[3], e.s[2] >>
\* spherical to Cartesian and back
SphOk(e) ==
  /\ Near(e.c, ToCart(e.s), "1e-14")
  /\ e.self = e.s
  /\ NEq(e.mag, e.s[1])
  /\ NEq(e.norm[1], 1) /\ e.norm[2] = e.s[2] /\ e.norm[3] = e.s[3]
AlgebraOk(e) ==
  LET a == e.a b == e.b k == e.k IN
  /\ VEq(e.add, VAdd(a, b)) /\ VEq(e.addto, VAdd(a, b)) /\ VEq(e.sub, VSub(a, b))
  /\ VEq(e.neg, VSub(<<0, 0, 0>>, a))
  /\ VEq(e.ka, VScale(k, a)) /\ VEq(e.ak, VScale(k, a))
  /\ NLe(NAbs(NSub(e.dot, NDot(a, b))), NMul("1e-15", NMul(VNorm(a), VNorm(b))))
  /\ NLe(VNorm(VSub(e.cross, VCross(a, b))), NMul("1e-15", NMul(VNorm(a), VNorm(b))))
  /\ NClose(e.mag, VNorm(a), "1e-15", "1e-300")
  /\ (NEq(VNorm(a), 0) \/ Near(e.norm, VScale(NDiv(1, VNorm(a)), a), "1e-15"))
  /\ e.a2 = a /\ e.b2 = b                                \* the operands stay
  /\ e.eq = (VEq(a, b)) /\ e.ne = ~e.eq /\ e.eqaa /\ e.eqspherical = FALSE
  /\ e.oob = "out_of_range"
\* deflection of a unit vector by a polar and an azimuth angle
DeflectOk(e) ==
  LET v == e.v  want == VDeflect(v, e.cosphi, e.theta) IN
  /\ NLe(VNorm(VSub(e.r, want)), "5e-8")
  /\ NClose(VNorm(e.r), 1, 0, "5e-8")
  /\ NClose(NDot(e.r, v), e.cosphi, 0, "5e-8")
  /\ ((NEq(e.cosphi, 1) /\ NEq(e.theta, 0)) => e.r = v)
SetOk(e) == e.r = e.v /\ e.r2 = e.v /\ e.sph = e.v /\ e.sph2 = e.v /\ e.i = e.v
=============================================================================

----------------------------- MODULE Scattering -----------------------------
(* How a particle changes its direction: little by little along a step       *)
(* (multiple scattering, two displacements and two angles) and at once in an *)
(* interaction (deflection by a polar and an azimuth angle).                 *)
EXTENDS PropLoop
ME == "0.5109989461"
MP == "938.2720813"
Alpha == "0.0072973525664"
Pi == "3.141592653589793"
Gamma == "0.57721566490153286"
Phi(z) == NMul("0.5", NErfc(NNeg(NDiv(z, NSqrt(2)))))
\* x belongs to the fraction r of a normal distribution of width s around 0
Normal(x, s, r) == IF NEq(s, 0) THEN NEq(x, 0)
                   ELSE /\ NLe(NAbs(NSub(Phi(NDiv(x, s)), r)), NAdd("1e-15", NMul("1e-9", r)))
                        /\ NLe(NAbs(NSub(Phi(NDiv(NNeg(x), s)), NSub(1, r))), NAdd("1e-15", NMul("1e-9", NSub(1, r))))
\* the same where the width is known to a relative accuracy d
NormalWithin(x, s, r, d) == LET z == NDiv(x, s) w == NMul(d, NAbs(z)) IN
  /\ NLe(Phi(NSub(z, w)), NAdd(r, "1e-9")) /\ NLe(r, NAdd(Phi(NAdd(z, w)), "1e-9"))
(* --------------------------------------------------------- directions -- *)
\* displacements beyond a right angle are one
Swing(d, sx, sy) == LET n == NAdd(NSq(sx), NSq(sy)) IN
                    IF NLe(n, 1) THEN Turn(d, sx, sy) ELSE Turn(d, NDiv(sx, NSqrt(n)), NDiv(sy, NSqrt(n)))
UnitDir(d) == NClose(VNorm(d), 1, "1e-12", 0)
\* rounding grows next to a right angle
SameDir(a, b) == VClose(a, b, 0, "2e-8")
(* --------------------------------------------------- multiple scattering *)
Mom2(m, E) == NMul(NSub(E, m), NAdd(E, m))
BetaP(m, E) == NDiv(Mom2(m, E), E)
Highland(P, X, Ei) == LET y == NDiv(X, P.X0) IN
  IF NEq(X, 0) THEN 0 ELSE
  NMul(NMul(NDiv(NMul("13.6", NAbs(P.charge)), BetaP(P.m, Ei)), NSqrt(y)), NMax(NAdd(1, NMul("0.088", NDiv(NLog(y), NLog(10)))), 0))
\* its integral along a step from Ei to Ef, for losses a + b E: dX (E/p^2)^2
HX == <<"0.01985507175123188", "0.10166676129318664", "0.2372337950418355", "0.40828267875217511", "0.59171732124782489", "0.7627662049581645", "0.89833323870681336", "0.98014492824876812">>
HW == <<"0.05061426814518813", "0.11119051722668723", "0.15685332293894364", "0.18134189168918099", "0.18134189168918099", "0.15685332293894364", "0.11119051722668723", "0.05061426814518813">>
Quad8(n, a, b, f(_)) == LET h == NDiv(NSub(b, a), n) IN
  NSum([k \in 1..8 * n |-> LET i == (k - 1) \div 8  j == 1 + ((k - 1) % 8) IN NMul(NMul(h, HW[j]), f(NAdd(a, NMul(h, NAdd(i, HX[j])))))])
HighlandIntegral(P, X, Ei, Ef) ==
  LET kin(E) == NSub(E, P.m)  u1 == NLog(kin(Ef))  u2 == NLog(kin(Ei))  n == 2 + NFloor(NMul(3, NSub(u2, u1)))
      f(u) == LET E == NAdd(P.m, NExp(u)) IN NDiv(NMul(NExp(u), NSq(NDiv(1, BetaP(P.m, E)))), NAdd(P.a, NMul(P.b, E)))
      i == IF NEq(Ei, Ef) THEN 0 ELSE Quad8(n, u1, u2, f) IN
  NMin(1, NMul(NMul(NMul("13.6", NAbs(P.charge)), NSqrt(NDiv(i, P.X0))), NMax(0, NAdd(1, NMul("0.038", NLog(NDiv(X, P.X0)))))))
(* Moliere's theory: components P.comp with charge Z, mass number A and k     *)
(* atoms per molecule                                                        *)
Parts_(P) == 1..Len(P.comp)
MassShare(P, i) == NDiv(NMul(P.comp[i].k, P.comp[i].A), NSum([j \in Parts_(P) |-> NMul(P.comp[j].k, P.comp[j].A)]))
Z2A(P) == NDiv(NSum([i \in Parts_(P) |-> LET Z == P.comp[i].Z IN NMul(MassShare(P, i), NMul(Z, IF NEq(P.m, ME) THEN NAdd(Z, 1) ELSE Z))]),
               NSum([i \in Parts_(P) |-> NMul(MassShare(P, i), P.comp[i].A)]))
ChiC2(P, X, E) == NMul(NDiv(NMul(NMul(NMul(4, Pi), NMul("6.022140857e23", NSq(NMul(Alpha, NMul("6.58211928e-22", "2.99792458e10"))))), X), NSq(BetaP(P.m, E))), Z2A(P))
ChiA2(P, i, E) == LET Z == P.comp[i].Z
                      chi0 == NMul(NMul(ME, Alpha), NPow(NDiv(NMul(Z, 128), NMul(9, NSq(Pi))), NDiv(1, 3)))
                      beta2 == NDiv(Mom2(P.m, E), NSq(E)) IN
  NMul(NDiv(NSq(chi0), Mom2(P.m, E)), NAdd("1.13", NDiv(NMul("3.76", NSq(NMul(Alpha, Z))), beta2)))
\* B - ln B = ln(chi_c^2/chi_a^2) + 1 - 2 gamma
BOf(P, i, X, E) ==
  LET b == NAdd(NLog(NDiv(ChiC2(P, X, E), ChiA2(P, i, E))), NSub(1, NMul(2, Gamma)))
      RECURSIVE It(_, _)
      It(n, x) == IF n = 0 THEN x ELSE It(n - 1, NAdd(b, NLog(x))) IN
  IF NLt(b, "2.9") THEN 0 ELSE It(60, 10)
\* projected angle: n-th term at phi = theta / (chi_c sqrt(B)), up to this angle
Term(n, phi) ==
  IF n = 0 THEN NMul("0.5", NErf(phi)) ELSE
  LET f(u) == LET w == NMul("0.25", NSq(u)) L == NMul(w, NLog(w)) IN NMul(NMul(NDiv(NSin(NMul(phi, u)), u), NExp(NNeg(w))), IF n = 1 THEN L ELSE NDiv(NSq(L), 2)) IN
  NDiv(Quad8(12 + NFloor(NMin(NMul(2, phi), 1000)), 0, 14, f), Pi)
Fraction(P, X, E, theta) ==
  LET c == NSqrt(ChiC2(P, X, E)) wz(i) == NMul(MassShare(P, i), NSq(P.comp[i].Z))  all == NSum([i \in Parts_(P) |-> wz(i)])
      part(i) == LET B == BOf(P, i, X, E)  phi == NDiv(NAbs(theta), NMul(c, NSqrt(B))) IN
                 NAdd(Term(0, phi), NAdd(NDiv(Term(1, phi), B), NDiv(Term(2, phi), NSq(B))))
      s == NDiv(NSum([i \in Parts_(P) |-> NMul(wz(i), part(i))]), all) IN
  IF NLt(theta, 0) THEN NSub("0.5", s) ELSE NAdd("0.5", s)
\* too few collisions for the theory (B of any component below 4.5): no scattering
Few(P, X, E) == NEq(X, 0) \/ \E i \in Parts_(P) : NLt(BOf(P, i, X, E), "4.5001")
Enough(P, X, E) == NGt(X, 0) /\ \A i \in Parts_(P) : NGt(BOf(P, i, X, E), "4.4999")
MoliereOk(P, X, E, theta, r, tol) == \/ Few(P, X, E) /\ NEq(theta, 0)
                                     \/ Enough(P, X, E) /\ NClose(Fraction(P, X, E, theta), r, 0, tol)
(* --------------------------------------------------------- deflections -- *)
\* the polar angle, at energies Ei and Ef and random number r
GeV(E) == NDiv(E, 1000)
\* a zenith whose square is exponential; r and the energies are known to one rounding
Exponential(zen, rms, r, m, Ei, Ef) == LET x == NSq(NDiv(zen, rms)) y == NNeg(NLog(NSub(1, r))) IN
  NClose(x, y, NAdd("1e-9", NMul("1e-14", NMul(Ei, NAdd(NDiv(1, NSub(Ef, m)), NDiv(1, NSub(Ei, Ef)))))), "3e-16")
Ioniz(m, Ei, Ef) == NDiv(NSub(NMul(NAdd(Ei, ME), Ef), NAdd(NMul(Ei, ME), NSq(m))), NSqrt(NMul(Mom2(m, Ei), Mom2(m, Ef))))
Tsai(m, Ei, Ef, zen, r) == \* the square of the angle in units of its scale, s/(1 + s) of which is uniform up to that of the largest impact
  LET eps == NSub(Ei, Ef)  R2 == NSq(NDiv(NMul(NMin(1, NDiv(Ef, eps)), Ei), m))
      a == NDiv(NMul(r, R2), NAdd(1, R2))  s == NSq(NMul(NDiv(zen, NDiv(eps, Ef)), NDiv(Ei, m)))
      u == NMul("1e-14", NDiv(Ei, eps)) IN
  NClose(NDiv(s, NAdd(1, s)), a, NAdd("1e-9", u), 0) /\ NClose(NDiv(1, NAdd(1, s)), NSub(1, a), NAdd("1e-9", u), "5e-16")
Borog(m, Ei, Ef, r) == \* sin^2 of half the angle
  LET eps == NSub(Ei, Ef)  y == NDiv(eps, Ei)  m02 == "0.4e6"
      tmax == NMul(NMul(2, MP), eps)  tmin == NDiv(NSq(NMul(m, y)), NSub(1, y))  t1 == NMin(NSq(eps), m02)
      q == NPow(NDiv(NMul(tmax, NAdd(tmin, t1)), NMul(tmin, NAdd(tmax, t1))), r)
      t == NDiv(NMul(tmax, t1), NSub(NMul(NAdd(tmax, t1), q), tmax)) IN
  NDiv(NSub(t, tmin), NSub(NMul(4, NSub(NMul(Ei, Ef), NSq(m))), NMul(2, tmin)))
EpairG(m, Ei, Ef) ==
  LET E == GeV(Ei)  nu == NDiv(NSub(Ei, Ef), NSub(Ei, m))
      lim_ == NMin(NAdd(NMul(NMul("8.9e-4", NPow(nu, "0.25")), NAdd(1, NMul("1.5e-5", E))), NDiv(NMul("0.032", nu), NAdd(nu, 1))), "0.1")
      rms == NMul(NDiv(NAdd("2.3", NLog(E)), NMul(NSub(1, nu), E)), NMul(NSq(NDiv(NSub(nu, NDiv(NMul(2, ME), Ei)), nu)), lim_)) IN
  NAbs(rms)
PhotoG(m, Ei, Ef) ==
  LET E == GeV(Ei)  nu == NDiv(NSub(Ei, Ef), NSub(Ei, m))
      rms == NMul(NMul(NDiv("0.39", NMul(E, NSub(1, nu))), NPow(NMul(NMul(NSqrt(E), nu), NSub(1, nu)), "0.17")), NSub(1, NDiv("0.135", NMul(E, nu)))) IN
  NAbs(rms)
BremsG(m, Ei, Ef, Z) ==
  LET E == GeV(Ei)  nu == NDiv(NSub(Ei, Ef), NSub(Ei, m)) IN
   IF NLe(nu, "0.5") THEN NMax(NMin(NMul(NMul("0.092", NPow(E, NDiv(-1, 3))), NSqrt(nu)), NMul(NDiv("0.052", E), NPow(Z, "-0.25"))), NMul(NMul("0.22", NPow(E, "-0.92")), nu))
   ELSE LET k4 == NMul("0.26", NPow(E, "-0.91"))  n == NDiv(NMul("0.81", NSqrt(E)), NAdd(NSqrt(E), "1.8"))
            at(v) == NMul(k4, NMul(NPow(v, NAdd(1, n)), NPow(NSub(1, v), NNeg(n))))
            RECURSIVE Bis(_, _, _)
            Bis(k, a, b) == IF k = 0 THEN NMul("0.5", NAdd(a, b)) ELSE LET c == NMul("0.5", NAdd(a, b)) IN IF NLt(at(c), "0.2") THEN Bis(k - 1, c, b) ELSE Bis(k - 1, a, c)
            ng == IF NGe(at("0.5"), "0.2") THEN "0.5" ELSE Bis(90, "0.5", 1) IN
        IF NLt(at(nu), "0.2") THEN at(nu) ELSE NMul(NMul(at(ng), NSqrt(NSub(1, ng))), NDiv(1, NSqrt(NSub(1, nu))))
=============================================================================

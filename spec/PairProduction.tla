-------------------------- MODULE PairProduction ---------------------------
(* Pairs of electrons or muons made by a charged particle: the differential   *)
(* cross section is an integral over the asymmetry rho of the pair.           *)
EXTENDS CrossSections
Beta(v) == NDiv(NSq(v), NMul(2, NSub(1, v)))
Xi(m, mp, v, r2) == NMul(NSq(NDiv(NMul(m, v), NMul(2, mp))), NDiv(NSub(1, r2), NSub(1, v)))
\* asymmetries up to this are possible
RhoMax(e, v) ==
  IF e.kind = "mupair" THEN Max0(NSub(1, NDiv(NMul(2, MMU), NMul(v, e.E))))
  ELSE LET a == NSub(1, NDiv(NMul(4, ME), NMul(e.E, v)))  b == NSub(1, NDiv(NMul(6, NSq(e.m)), NMul(NSq(e.E), NSub(1, v)))) IN
       IF NGt(a, 0) /\ NGt(b, 0) THEN NMul(NSqrt(a), b) ELSE 0
\* pair emission by scattering on atomic electrons
Atomic(e) ==
  LET Z == e.t.Z  g == NDiv(e.E, e.m)  one == NEq(Z, 1)  c1 == IF one THEN "4.4e-5" ELSE "1.95e-5"  c2 == IF one THEN "4.8e-5" ELSE "5.3e-5"
      a == NSub(NMul("0.073", NLog(NDiv(g, NAdd(1, NMul(c1, NMul(NSq(Cube(Z)), g)))))), "0.26")
      b == NSub(NMul("0.058", NLog(NDiv(g, NAdd(1, NMul(c2, NMul(Cube(Z), g)))))), "0.14") IN
  IF NGt(a, 0) /\ NGt(b, 0) THEN NDiv(a, b) ELSE 0
\* what both diagrams are made of (Kelner, Kokoulin, Petrukhin)
PhiE(x, b, r2) == NAdd(NMul(NAdd(NMul(NAdd(2, r2), NAdd(1, b)), NMul(x, NAdd(3, r2))), NLog(NAdd(1, NDiv(1, x)))),
                       NSub(NDiv(NSub(NSub(1, r2), b), NAdd(1, x)), NAdd(3, r2)))
PhiM(x, b, r2) == NAdd(NMul(NSub(NMul(NAdd(1, r2), NAdd(1, NMul("1.5", b))), NDiv(NMul(NAdd(1, NMul(2, b)), NSub(1, r2)), x)), NLog(NAdd(1, x))),
                       NAdd(NDiv(NMul(x, NSub(NSub(1, r2), b)), NAdd(1, x)), NMul(NAdd(1, NMul(2, b)), NSub(1, r2))))
Front(e, v) == NMul(NMul(NDiv(4, NMul(3, PI)), NMul(e.t.Z, NAdd(e.t.Z, Atomic(e)))), NMul(NSq(NMul(NMul(ALPHA, RE), e.q)), NDiv(NSub(1, v), v)))
KKP(e, v, rho) ==
  LET Z == e.t.Z  B == NDiv(e.t.log, Cube(Z))  r2 == NSq(rho)  x == Xi(e.m, ME, v, r2)  b == Beta(v)
      Ye == NDiv(NAdd(NSub(5, r2), NMul(NMul(4, b), NAdd(1, r2))),
                 NSub(NSub(NMul(NMul(2, NAdd(1, NMul(3, b))), NLog(NAdd(3, NDiv(1, x)))), r2), NMul(NMul(2, b), NSub(2, r2))))
      Ym == NDiv(NAdd(NAdd(4, r2), NMul(NMul(3, b), NAdd(1, r2))),
                 NSub(NAdd(NMul(NMul(NAdd(1, r2), NAdd("1.5", NMul(2, b))), NLog(NAdd(3, x))), 1), NMul("1.5", r2)))
      rec == NDiv(NMul(NMul(2, ME), NMul(SQRTE, B)), NMul(NMul(e.E, v), NSub(1, r2)))
      size == NSq(NMul(NMul("1.5", NDiv(ME, e.m)), Cube(Z)))
      Le == NSub(NLog(NDiv(NMul(B, NSqrt(NMul(NAdd(1, x), NAdd(1, Ye)))), NAdd(1, NMul(rec, NMul(NAdd(1, x), NAdd(1, Ye)))))),
                 NDiv(NLog(NAdd(1, NMul(size, NMul(NAdd(1, x), NAdd(1, Ye))))), 2))
      Lm == NLog(NDiv(NMul(NMul(NDiv(2, 3), NDiv(e.m, ME)), NMul(NDiv(B, Cube(Z)), 1)), NAdd(1, NMul(rec, NMul(NAdd(1, x), NAdd(1, Ym))))))
      \* where the argument of the logarithm is close to one, its expansion
      phie == IF NGt(x, "1e5") THEN NDiv(NAdd(NSub("1.5", NDiv(r2, 2)), NMul(b, NAdd(1, r2))), x) ELSE PhiE(x, b, r2) IN
  NMul(Front(e, v), NAdd(NMul(phie, Max0(Le)), NMul(NSq(NMul(NDiv(ME, e.m), e.q)), NMul(PhiM(x, b, r2), Max0(Lm)))))
SSR(e, v, rho) ==
  LET Z == e.t.Z  B == NDiv(e.t.log, Cube(Z))  r2 == NSq(rho)  x == Xi(e.m, ME, v, r2)  b == Beta(v)  D == Dn(e.t)
      w == NSub(1, r2)  l == NLog(NAdd(1, NDiv(1, x)))  m == NLog(NAdd(1, x))  x1 == NAdd(1, x)
      rec == NDiv(NMul(NMul(2, ME), NMul(B, x1)), NMul(NMul(e.E, v), w))
      Be == PhiE(x, b, r2)
      Ce2 == NSub(NAdd(NMul(NAdd(NMul(w, NAdd(1, b)), NMul(x, NSub(3, r2))), l), NDiv(NMul(2, NSub(w, b)), x1)), NSub(3, r2))
      De == NSub(NSub(NMul(NAdd(NMul(NAdd(2, r2), NAdd(1, b)), NMul(x, NAdd(3, r2))), NLi2(NDiv(1, x1))), NMul(NMul(NAdd(2, r2), x), l)), NDiv(NAdd(NAdd(x, r2), b), x1))
      Xe == NExp(NNeg(NDiv(De, Be)))
      Le(c, s, d) == NSub(NSub(NLog(NDiv(NMul(NMul(B, c), NSqrt(x1)), NAdd(Xe, NMul(rec, s)))), NDiv(De, Be)),
                          NDiv(NLog(NAdd(Xe, NMul(NMul(NSq(NMul(NDiv(ME, e.m), D)), d), x1))), 2))
      Bm == PhiM(x, b, r2)
      Cm2 == NAdd(NSub(NDiv(NMul(NSub(NMul(NSub(1, b), w), NMul(x, NAdd(1, r2))), m), x), NDiv(NMul(2, NSub(w, b)), x1)), NSub(NSub(1, b), NMul(NAdd(1, b), r2)))
      Dm == NAdd(NAdd(NMul(NSub(NMul(NAdd(1, r2), NAdd(1, NMul("1.5", b))), NDiv(NMul(NAdd(1, NMul(2, b)), w), x)), NLi2(NDiv(x, x1))),
                      NMul(NMul(NAdd(1, NMul("1.5", b)), NDiv(w, x)), m)),
                 NMul(NAdd(NSub(w, NMul(NDiv(b, 2), NAdd(1, r2))), NMul(NDiv(w, NMul(2, x)), b)), NDiv(x, x1)))
      Xm == NExp(NNeg(NDiv(Dm, Bm)))
      Lm(s) == NLog(NDiv(NMul(NMul(Xm, NDiv(e.m, ME)), NDiv(B, D)), NAdd(Xm, NMul(rec, s))))
      de == NAdd(NMul(NSub(Be, Ce2), Le(1, NExp("0.5"), 1)), NMul(Ce2, Le(NExp(NDiv(-1, 6)), NExp(NDiv(1, 3)), NExp(NDiv(-1, 3)))))
      dm == NAdd(NMul(NSub(Bm, Cm2), Lm(NExp("0.5"))), NMul(Cm2, Lm(NExp(NDiv(1, 3))))) IN
  NMul(Front(e, v), NAdd(Max0(de), NMul(NSq(NMul(NDiv(ME, e.m), e.q)), Max0(dm))))
\* pairs of the particle mp: muons, or electrons by an electron (where the size of the nucleus does not matter)
Same(e, v, rho, mp, B, form) ==
  LET Z3 == NDiv(1, Cube(e.t.Z))  r2 == NSq(rho)  top == NSub(1, NDiv(NMul(2, mp), NMul(v, e.E)))  b == Beta(v)  Y == NMul(12, NSqrt(NDiv(mp, e.E)))
      x(s) == Xi(e.m, mp, v, s)
      phi == NAdd(NMul(NAdd(NMul(NAdd(2, r2), NAdd(1, b)), NMul(x(r2), NAdd(3, r2))), NLog(NAdd(1, NDiv(1, x(r2))))),
                  NAdd(NMul(NSub(NMul(NAdd(1, r2), NAdd(1, NMul("1.5", b))), NDiv(NMul(NAdd(1, NMul(2, b)), NSub(1, r2)), x(r2))), NLog(NAdd(1, x(r2)))),
                       NAdd(NSub(-1, NMul(3, r2)), NMul(b, NSub(1, NMul(2, r2))))))
      U(s) == NDiv(NMul(form, NMul(B, Z3)), NAdd(1, NDiv(NMul(NMul(NMul(2, SQRTE), NSq(mp)), NMul(NMul(B, Z3), NMul(NAdd(1, x(s)), NAdd(1, Y)))), NMul(NMul(ME, NMul(e.E, v)), NSub(1, s)))))
      X == NSub(NAdd(1, U(r2)), U(NSq(top))) IN
  IF NLe(X, 1) THEN 0 ELSE
  NMul(NMul(NDiv(4, NMul(3, PI)), NSq(NMul(NMul(NMul(ALPHA, NDiv(NMul(RE, ME), mp)), e.q), e.t.Z))), NMul(NDiv(NSub(1, v), v), Max0(NMul(phi, NLog(X)))))
OfRho(e, v, rho) ==
  CASE e.kind = "mupair" -> Same(e, v, rho, MMU, 183, NMul(NMul("0.65", NPow(e.t.A, "-0.27")), NDiv(MMU, ME)))
    [] e.kind = "epair" /\ e.name = "ForElectronPositron" -> Same(e, v, rho, ME, e.t.log, 1)
    [] e.kind = "epair" /\ e.name = "KelnerKokoulinPetrukhin" -> KKP(e, v, rho)
    [] e.kind = "epair" /\ e.name = "SandrockSoedingreksoRhode" -> SSR(e, v, rho)
\* n panels of eight points in the logarithm of 1 - rho
PairDs(e, v, n) ==
  LET top == RhoMax(e, v)  a == NLog(NMax(NSub(1, top), "1e-12"))  h == NDiv(NNeg(a), n)
      f(y) == LET s == NExp(y) IN NMul(s, OfRho(e, v, NSub(1, s))) IN
  IF NLe(top, 0) THEN 0 ELSE
  NMul(NDiv(NAV, e.t.A), NSum([k \in 1..8 * n |-> NMul(NMul(h, GW[1 + ((k - 1) % 8)]), f(NAdd(a, NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)])))))]))
=============================================================================

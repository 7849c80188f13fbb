-------------------------------- MODULE Lpm --------------------------------
(* Suppression of bremsstrahlung and pair production in dense media (Landau,  *)
(* Pomeranchuk, Migdal): while a photon or a pair is formed the other charges *)
(* around disturb it. e.med is the whole medium, e.dc its density relative to *)
(* the one it is tabulated with.                                              *)
EXTENDS PhotoNuclear
SQRT2 == "1.4142135623730951"
Comps(e) == e.med.comp
SumOver(e, f(_)) == NSum([i \in 1..Len(Comps(e)) |-> NMul(Comps(e)[i].k, f(Comps(e)[i]))])
Nucleons(e) == LET f(c) == c.A IN SumOver(e, f)
\* molecules per volume
Molecules(e) == NDiv(NMul(NAV, e.med.rho), Nucleons(e))
Charges(e) == LET f(c) == c.Z IN NMul(Molecules(e), SumOver(e, f))
\* inverse radiation length by the parametrization itself at the highest energies
Radiation(e) ==
  LET n == 6  brems == e.kind = "brems"
      one(c) == LET ee == [e EXCEPT !.E = "1e14", !.t = c, !.lpm = FALSE]  w == Limits(ee)  h == NDiv(NSub(w[2], w[1]), n) IN
                NMul(NDiv(c.A, Nucleons(e)),
                     NSum([k \in 1..8 * n |-> LET v == NAdd(w[1], NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)]))) IN
                                              NMul(NMul(h, GW[1 + ((k - 1) % 8)]), NMul(IF brems THEN v ELSE NDiv(9, 7), Sigma(ee, [v |-> v])))])) IN
  NMul(e.med.rho, SumOver(e, one))
LpmEnergy(e, m) == NDiv(NMul(2, NSq(NMul(ALPHA, m))), NMul(NMul(PI, NMul(ME, RE)), Radiation(e)))
\* Migdal's functions, as fitted by Stanev and others
Phi(s) == IF NLt(s, "1.54954")
          THEN NSub(1, NExp(NAdd(NMul(NMul(-6, s), NAdd(1, NMul(NSub(3, PI), s))), NDiv(NPow(s, 3), NAdd("0.623", NMul(s, NAdd("0.796", NMul("0.658", s))))))))
          ELSE NSub(1, NDiv("0.012", NPow(s, 4)))
Gee(s) == IF NLt(s, "0.710390")
          THEN LET d == NAdd(1, NMul(s, NAdd("3.936", NMul(s, NAdd("4.97", NMul(s, NAdd("-0.05", NMul("7.50", s))))))))
                   psi == NSub(1, NExp(NSub(NMul(-4, s), NDiv(NMul(8, NSq(s)), d)))) IN NSub(NMul(3, psi), NMul(2, Phi(s)))
          ELSE IF NLt(s, "0.904912") THEN LET q == NMul(36, NSq(s)) IN NDiv(q, NAdd(q, 1))
          ELSE NSub(1, NDiv("0.022", NPow(s, 4)))
\* x: part of the energy (of the photon, or of one partner of the pair), elpm: energy from where it matters
Photon(e, x, elpm) ==
  LET brems == e.kind = "brems"  m == IF brems THEN e.m ELSE ME  Z3 == NDiv(1, Cube(e.t.Z))
      nuc == IF brems THEN NAdd(1, NSq(NMul(NDiv(m, MMU), Dn(e.t)))) ELSE 1
      s1 == NMul(NMul(NSq(NDiv(ME, NMul(m, NMul(Z3, e.t.log)))), nuc), SQRT2)
      sp == NDiv(NSqrt(NDiv(NMul(elpm, IF brems THEN NDiv(x, NSub(1, x)) ELSE NDiv(1, NMul(x, NSub(1, x)))), NMul(e.dc, e.E))), 8)
      h == NDiv(NLog(sp), NLog(s1))  g == NSub(1, h)
      xi == IF NLt(sp, s1) THEN 2 ELSE IF NLt(sp, 1) THEN NSub(NAdd(1, h), NDiv(NMul(NMul("0.08", g), NSub(1, NSq(g))), NLog(s1))) ELSE 1
      \* polarization of the medium
      Gamma == NAdd(1, NMul(NMul(NMul(4, PI), NMul(Charges(e), RE)), NMul(NSq(NDiv(NMul(RE, ME), NMul(NMul(ALPHA, m), x))), e.dc)))
      s == NMul(NDiv(sp, NSqrt(xi)), Gamma)  y == NSub(1, x)  third == NDiv(xi, 3) IN
  IF brems THEN NDiv(NMul(third, NAdd(NDiv(NMul(NSq(x), Gee(s)), NSq(Gamma)), NDiv(NMul(NMul(2, NAdd(1, NSq(y))), Phi(s)), Gamma))),
                     NAdd(NMul(NDiv(4, 3), y), NSq(x)))
  ELSE NDiv(NMul(third, NAdd(NDiv(Gee(s), NSq(Gamma)), NDiv(NMul(NMul(2, NAdd(NSq(x), NSq(y))), Phi(s)), Gamma))),
            NSub(1, NMul(NDiv(4, 3), NMul(x, y))))
\* pairs by charged particles (Polityko and others, with the functions of Ternovskii): x is Xi
PairLpmEnergy(e) ==
  LET f(c) == NMul(NSq(c.Z), NLog(NDiv(NMul("3.25", c.log), Cube(c.Z)))) IN
  NDiv(NMul(NPow(NDiv(e.m, NMul(ME, RE)), 3), NMul(ALPHA, e.m)), NMul(NMul(2, PI), NMul(NSq(e.q), NMul(Molecules(e), SumOver(e, f)))))
PairFactor(e, v, r2, elpm) ==
  LET b == Beta(v)  x == Xi(e.m, ME, v, r2)  s == NDiv(NSqrt(NDiv(elpm, NMul(NMul(e.dc, e.E), NMul(v, NSub(1, r2))))), 4)
      s6 == NMul(6, s)  s36 == NSq(s6)  d1 == NDiv(s6, NAdd(s6, 1))  d2 == NDiv(s36, NAdd(s36, 1))  x1 == NAdd(1, x)
      at == NSub(NAtan2(NMul(s6, x1), 1), NDiv(PI, 2))  w == NDiv(NSub(s36, 1), NAdd(s36, 1))
      l1 == NLog(NDiv(NAdd(NMul(s36, NSq(x1)), 1), NMul(s36, NSq(x))))  l2 == NLog(NDiv(NAdd(NMul(s6, x1), 1), NMul(s6, x)))
      A == NAdd(NSub(NMul(NMul(NDiv(d2, 2), NAdd(1, NMul(NMul(2, d2), x))), l1), d2), NMul(NMul(d2, s6), NMul(NAdd(1, NMul(w, x)), at)))
      B == NSub(NMul(NMul(d1, NAdd(1, NMul(d1, x))), l2), d1)
      C == NSub(NSub(d2, NMul(NMul(NSq(d2), x), l1)), NMul(NDiv(NMul(NSq(d2), NSub(s36, 1)), s6), NMul(x, at)))
      D == NSub(d1, NMul(NMul(NSq(d1), x), l2))
      E == NNeg(NMul(s6, at)) IN
  IF NGt(NMul(s6, x1), "1e10") THEN 1 ELSE
  NDiv(NAdd(NAdd(NMul(NAdd(1, b), NAdd(A, NMul(NAdd(1, r2), B))), NMul(b, NAdd(C, NMul(NAdd(1, r2), D)))), NMul(NSub(1, r2), E)),
       PhiE(x, b, r2))
PairLpmDs(e, v, n) ==
  LET top == RhoMax(e, v)  a == NLog(NMax(NSub(1, top), "1e-12"))  h == NDiv(NNeg(a), n)  el == PairLpmEnergy(e)
      f(y) == LET s == NExp(y)  r == NSub(1, s) IN NMul(s, NMul(OfRho(e, v, r), PairFactor(e, v, NSq(r), el))) IN
  IF NLe(top, 0) THEN 0 ELSE
  NMul(NDiv(NAV, e.t.A), NSum([k \in 1..8 * n |-> NMul(NMul(h, GW[1 + ((k - 1) % 8)]), f(NAdd(a, NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)])))))]))
=============================================================================

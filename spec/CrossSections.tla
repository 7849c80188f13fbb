--------------------------- MODULE CrossSections ---------------------------
(* What an interaction can do: the part v of the energy E that it can take    *)
(* away (kinematic limits), how often it takes away how much (differential    *)
(* cross section, per grammage), and from these the rate of stochastic losses *)
(* above the cut, the continuous loss and its spread below it.                *)
(* e: kind, name, m, q (mass and charge of the particle), E, t (target:       *)
(* component Z A k M log bp, or medium I C a mm x0 x1 d0 comp)                *)
EXTENDS Num, Integers, Sequences
ME == "0.5109989461"  MMU == "105.6583745"  MPI == "139.57018"  MPROT == "938.2720813"  MNEUT == "939.565413"
SQRTE == "1.648721270700128"  ALPHA == "0.0072973525664"  NAV == "6.022140857e23"  RE == "2.8179403227e-13"  IONK == "0.307075"  PI == "3.141592653589793"
Cube(x) == NPow(x, NDiv(1, 3))
Max0(x) == NMax(0, x)
(* ----------------------------------------------------- kinematic limits *)
LowE(e) ==
  CASE e.kind \in {"brems", "ioniz", "q2", "real", "weak"} -> e.m
    [] e.kind = "epair" -> NAdd(e.m, NMul(2, ME))
    [] e.kind = "mupair" -> NAdd(e.m, NMul(2, MMU))
    [] e.kind = "compton" -> NDiv(NMul(NSq(ALPHA), ME), 2)
    [] e.kind = "photopair" -> NMul(2, ME)
    [] e.kind = "photomupair" -> NMul(NMul(2, MMU), SQRTE)
\* <<lower, upper>>
Limits(e) ==
  LET m == e.m  E == e.E  r == NDiv(m, E)  M == e.t.M
      atom == NSub(1, NMul(NMul(NMul("0.75", SQRTE), r), Cube(e.t.Z)))  \* screening by the nucleus
      open(lo, hi) == <<lo, NMax(lo, hi)>> IN
  CASE e.kind = "brems" -> IF e.name = "ElectronScreening" THEN <<0, NSub(1, r)>> ELSE <<0, Max0(atom)>>
    [] e.kind = "epair" -> open(NDiv(NMul(4, ME), E), NMin(atom, NSub(1, NMul(6, NSq(r)))))
    [] e.kind = "mupair" -> open(NDiv(NMul(2, MMU), E), NSub(1, r))
    [] e.kind = "ioniz" /\ e.name = "BetheBlochRossi" ->
         LET g == NDiv(E, m)  x == NDiv(ME, m) IN
         open(NDiv(NMul("1e-6", e.t.I), E),
              NMin(NDiv(NDiv(NMul(NMul(2, ME), NSub(NSq(g), 1)), NAdd(1, NAdd(NMul(NMul(2, g), x), NSq(x)))), E), NSub(1, r)))
    [] e.kind = "ioniz" /\ e.name = "BergerSeltzerBhabha" -> <<0, Max0(NSub(1, r))>>
    [] e.kind = "ioniz" /\ e.name = "BergerSeltzerMoller" -> <<0, Max0(NDiv(NSub(1, r), 2))>>
    [] e.kind \in {"q2", "real"} ->
         LET pion == NDiv(NAdd(MPI, NDiv(NSq(MPI), NMul(2, M))), E) IN
         open(pion, NSub(1, IF NLt(m, MPI) THEN NDiv(NMul(M, NAdd(1, NSq(NDiv(m, M)))), NMul(2, E)) ELSE r))
    [] e.kind = "compton" -> <<0, NSub(1, NDiv(1, NAdd(1, NDiv(NMul(2, E), ME))))>>
    [] e.kind = "photopair" -> IF NLe(E, NMul(2, ME)) THEN <<"0.5", "0.5">> ELSE <<NDiv(ME, E), NSub(1, NDiv(ME, E))>>
    [] e.kind = "photomupair" ->
         LET s == NSub(1, NDiv(NMul(NMul(2, SQRTE), MMU), E)) IN
         IF NLe(s, 0) THEN <<"0.5", "0.5">> ELSE <<NDiv(NSub(1, NSqrt(s)), 2), NDiv(NAdd(1, NSqrt(s)), 2)>>
    [] e.kind = "weak" -> LET M2 == NDiv(NAdd(MPROT, MNEUT), 2) IN <<NDiv("1e6", NAdd(NMul(NMul(2, E), M2), NSq(M2))), 1>>
\* the limits suffer the rounding of E - m
LimTol(e) == NMul("1e-14", NAdd(1, NDiv(e.m, e.E)))
(* --------------------------------------------- differential cross sections *)
Delta(m, E, v) == NDiv(NMul(NSq(m), v), NMul(NMul(2, E), NSub(1, v)))
Shape(v) == NAdd(NMul(NDiv(4, 3), NSub(1, v)), NSq(v))
Coulomb(Z) == LET a == NSq(NMul(ALPHA, Z)) IN
  NMul(a, NAdd(NDiv(1, NAdd(1, a)), NAdd("0.20206", NMul(a, NAdd("-0.0369", NMul(a, NSub("0.0083", NMul("0.002", a))))))))
Light == <<<<"5.31", "6.144">>, <<"4.79", "5.621">>, <<"4.74", "5.805">>, <<"4.71", "5.924">>>>
RadLog(Z) == LET n == NFloor(NAdd(Z, "0.5")) IN
  IF n \in 1..4 THEN Light[n] ELSE <<NLog(NDiv("184.15", Cube(Z))), NLog(NDiv(1194, NSq(Cube(Z))))>>
Poly(c, x) == LET RECURSIVE P(_) P(i) == IF i > Len(c) THEN 0 ELSE NAdd(c[i], NMul(x, P(i + 1))) IN P(1)
Dn(t) == NMul("1.54", NPow(t.A, "0.27"))
MaxV(m, E) == LET p == NSqrt(Max0(NMul(NSub(E, m), NAdd(E, m)))) IN NDiv(NMul(ME, NSub(E, m)), NMul(E, NAdd(NSub(E, p), ME)))
\* photons from bremsstrahlung on the atomic electrons
Inelastic(m, E, v, t) == LET d == Delta(m, E, v) IN
  IF NLt(v, MaxV(m, E)) THEN NSub(NLog(NDiv(m, NMul(d, NAdd(NDiv(NMul(d, m), NSq(ME)), SQRTE)))),
                                   NLog(NAdd(1, NDiv(ME, NMul(NMul(d, SQRTE), NDiv(t.bp, NSq(Cube(t.Z)))))))) ELSE 0
\* screening of the field of the nucleus by its electrons (Butcher, Messel; x in units of the electron mass)
Screen(x) == IF NLe(x, 1) THEN <<Poly(<<"20.867", "-3.242", "0.625">>, x), Poly(<<"20.029", "-1.930", "-0.086">>, x)>>
             ELSE LET p == NSub("21.12", NMul("4.184", NLog(NAdd(x, "0.952")))) IN <<p, p>>
Brems(e, v) ==
  LET m == e.m  E == e.E  t == e.t  Z == t.Z  Z3 == NDiv(1, Cube(Z))  d == Delta(m, E, v)  Dnu == Dn(t) IN
  CASE e.name = "PetrukhinShestakov" ->
         LET f0 == NDiv(NMul(NDiv(m, ME), NMul(189, Z3)), NAdd(1, NMul(NDiv(NMul(189, Z3), ME), NMul(SQRTE, d))))
             f == IF NGt(Z, 10) THEN NMul(f0, NMul(NDiv(2, 3), Z3)) ELSE f0 IN NMul(Shape(v), NLog(f))
    [] e.name = "KelnerKokoulinPetrukhin" ->
         LET atom == NLog(NAdd(1, NDiv(ME, NMul(NMul(d, SQRTE), NMul(t.log, Z3)))))
             nucl == NLog(NDiv(Dnu, NAdd(1, NDiv(NMul(d, NSub(NMul(Dnu, SQRTE), 2)), m))))
             nuin == IF NEq(Z, 1) THEN 0 ELSE nucl IN
         NMul(Shape(v), NAdd(NSub(NSub(NSub(NLog(NDiv(m, d)), "0.5"), atom), nucl), NDiv(NAdd(nuin, Inelastic(m, E, v, t)), Z)))
    [] e.name = "CompleteScreening" ->
         LET L == RadLog(Z) IN
         NDiv(NAdd(NMul(Shape(v), NAdd(NMul(Z, NSub(L[1], Coulomb(Z))), L[2])), NMul(NDiv(NSub(1, v), 9), NAdd(Z, 1))), Z)
    [] e.name = "AndreevBezrukovBugaev" ->
         LET a1 == NDiv(NMul("184.15", Z3), NMul(SQRTE, ME))  a2 == NDiv(NMul(1194, NSq(Z3)), NMul(SQRTE, ME))
             x1 == NMul(a1, d)  x2 == NMul(a2, d)
             qc == NMul(NMul("1.9", MMU), Z3)  w == NDiv(NMul(2, m), qc)  z == NSqrt(NAdd(1, NSq(w)))
             lq == NLog(NDiv(m, qc))  lz == NMul(NDiv(z, 2), NLog(NDiv(NAdd(z, 1), NSub(z, 1))))
             d1 == IF NEq(Z, 1) THEN 0 ELSE NAdd(lq, lz)
             d2 == IF NEq(Z, 1) THEN 0 ELSE NAdd(lq, NDiv(NAdd(NMul(NSub(3, NSq(z)), lz), NSq(w)), 2))
             l(a, x) == NLog(NDiv(NSq(NMul(m, a)), NAdd(1, NSq(x))))
             at(x) == NMul(x, NAtan2(1, x))
             g(x) == NMul(NMul(2, NSq(x)), NAdd(NSub(1, at(x)), NMul("0.75", NLog(NDiv(NSq(x), NAdd(1, NSq(x)))))))
             psi1 == NSub(NSub(NDiv(NAdd(NAdd(1, l(a1, x1)), NDiv(NAdd(1, l(a2, x2)), Z)), 2), NAdd(at(x1), NDiv(at(x2), Z))), d1)
             psi2 == NSub(NAdd(NDiv(NAdd(NAdd(NDiv(2, 3), l(a1, x1)), NDiv(NAdd(NDiv(2, 3), l(a2, x2)), Z)), 2), NAdd(g(x1), NDiv(g(x2), Z))), d2) IN
         Max0(NSub(NMul(NAdd(NSub(2, NMul(2, v)), NSq(v)), psi1), NMul(NMul(NDiv(2, 3), NSub(1, v)), psi2)))
    [] e.name = "SandrockSoedingreksoRhode" ->
         LET mq == NDiv(m, NDiv(NMul(MMU, NExp(1)), Dnu))  rho == NSqrt(NAdd(1, NMul(4, NSq(mq))))  lr == NLog(NDiv(NAdd(rho, 1), NSub(rho, 1)))
             d1 == NAdd(NLog(mq), NMul(NDiv(rho, 2), lr))
             d2 == NAdd(NAdd(NLog(mq), NMul(NMul("0.25", NSub(NMul(3, rho), NPow(rho, 3))), lr)), NMul(2, NSq(mq)))
             share == IF NEq(Z, 1) THEN 1 ELSE NSub(1, NDiv(1, Z))
             f(c1, c2) == NLog(NDiv(NMul(NMul(t.log, Z3), NMul(c1, NDiv(m, ME))), NAdd(1, NMul(NMul(NMul(t.log, Z3), c2), NDiv(d, ME)))))
             p1 == NSub(f(1, NExp("0.5")), NMul(d1, share))
             p2 == NSub(f(NExp(NDiv(-1, 6)), NExp(NDiv(1, 3))), NMul(d2, share))
             L == NLog(NSub(1, v))
             tail(c) == NAdd(Poly(SubSeq(c, 1, 3), v), NAdd(NMul(NMul(c[4], v), NLog(v)), NAdd(NMul(c[5], L), NMul(c[6], NSq(L)))))
             srad == IF NLt(v, "0.02") THEN Poly(<<"-0.00349", "148.84", "-987.531">>, v)
                     ELSE IF NLt(v, "0.1") THEN Poly(<<"0.1642", "132.573", "-585.361", "1407.77">>, v)
                     ELSE IF NLt(v, "0.9") THEN tail(<<"-2.8922", "-19.0156", "57.698", "-63.418", "14.1166", "1.84206">>)
                     ELSE tail(<<"2134.19", "581.823", "-2708.85", "4767.05", "1.52918", "0.361933">>) IN
         Max0(NAdd(NAdd(NSub(NMul(NAdd(NSub(2, NMul(2, v)), NSq(v)), p1), NMul(NMul(NDiv(2, 3), NSub(1, v)), p2)),
                        NDiv(NMul(Shape(v), Inelastic(m, E, v, t)), Z)), NMul(NMul(NMul("0.25", ALPHA), p1), srad)))
    [] e.name = "ElectronScreening" ->
         LET L == RadLog(Z)  f == Coulomb(Z)  xi == NDiv(L[2], NSub(L[1], f))  ff == IF NLt(E, 50) THEN 0 ELSE f
             x == NDiv(NMul(NMul(NMul(136, Z3), 2), d), ME)  p == Screen(x)  c == NAdd(NMul(NDiv(4, 3), NLog(Z)), NMul(4, ff)) IN
         NMul(NMul(Z, NAdd(Z, xi)), NSub(NMul(NAdd(NSub(2, NMul(2, v)), NSq(v)), NSub(p[1], c)), NMul(NMul(NDiv(2, 3), NSub(1, v)), NSub(p[2], c))))
\* protons per nucleon
ZA(t) == NDiv(NSum([i \in 1..Len(t.comp) |-> NMul(t.comp[i].k, t.comp[i].Z)]), NSum([i \in 1..Len(t.comp) |-> NMul(t.comp[i].k, t.comp[i].A)]))
BornBBR(e, v, vup) == LET b2 == NDiv(NMul(NSub(e.E, e.m), NAdd(e.E, e.m)), NSq(e.E))  s == NDiv(v, NAdd(1, NDiv(e.m, e.E))) IN
  NMul(NAdd(NSub(1, NMul(b2, NDiv(v, vup))), NDiv(NSq(s), 2)), NDiv(NMul(NMul(IONK, NSq(e.q)), ZA(e.t)), NMul(NMul(NMul(2, b2), e.E), NSq(v))))
InelBBR(e, v, vup) ==
  LET a == NLog(NAdd(1, NDiv(NMul(NMul(2, v), e.E), ME)))  b == NLog(NDiv(NSub(1, NDiv(v, vup)), NSub(1, v)))
      c == NLog(NDiv(NMul(NMul(NMul(2, NDiv(e.E, e.m)), NSub(1, v)), ME), NMul(e.m, v))) IN
  NMul(NDiv(ALPHA, NMul(2, PI)), NSub(NMul(a, NAdd(NMul(2, b), c)), NSq(b)))
Ioniz(e, v) ==
  LET g == NDiv(e.E, e.m)  x == NDiv(NMul(v, e.E), NSub(e.E, e.m))  b2 == NSub(1, NDiv(1, NSq(g)))
      pre == NDiv(NMul(NMul(NMul(2, PI), NMul(NSq(RE), NAV)), ZA(e.t)), NMul(NSub(g, 1), NSub(1, NDiv(1, g)))) IN
  CASE e.name = "BetheBlochRossi" -> LET vup == Limits(e)[2] IN NMul(BornBBR(e, v, vup), NAdd(1, InelBBR(e, v, vup)))
    [] e.name = "BergerSeltzerBhabha" ->
         LET y == NDiv(1, NAdd(g, 1))  w == NSub(1, NMul(2, y))  B1 == NSub(2, NSq(y))  B2 == NMul(w, NAdd(3, NSq(y)))  B4 == NPow(w, 3)  B3 == NAdd(NSq(w), B4) IN
         Max0(NMul(pre, NAdd(NSub(NDiv(1, NMul(b2, NSq(x))), NDiv(B1, x)), NAdd(NSub(B2, NMul(B3, x)), NMul(B4, NSq(x))))))
    [] e.name = "BergerSeltzerMoller" ->
         LET C1 == NSq(NDiv(NSub(g, 1), g))  C2 == NDiv(NSub(NMul(2, g), 1), NSq(g)) IN
         Max0(NDiv(NMul(pre, NAdd(C1, NAdd(NMul(NDiv(1, x), NSub(NDiv(1, x), C2)), NMul(NDiv(1, NSub(1, x)), NSub(NDiv(1, NSub(1, x)), C2))))), b2))
Compton(e, v) ==
  LET k == NDiv(e.E, ME)  C1 == NDiv(1, NSq(k))  C2 == NSub(1, NMul(NMul(2, NAdd(1, k)), C1))  C3 == NMul(NAdd(1, NMul(2, k)), C1)  x == NSub(1, v) IN
  NMul(NMul(NDiv(NAV, e.t.A), e.t.Z), NMul(NDiv(NMul(NMul(PI, NSq(RE)), ME), e.E), NAdd(NDiv(NAdd(NDiv(C1, x), C2), x), NAdd(C3, x))))
PairDelta(m, E, x) == NDiv(NSq(m), NMul(NMul(2, E), NMul(x, NSub(1, x))))
\* Tsai's screening functions: <<Phi1, Phi1 - Phi2, Psi1, Psi1 - Psi2>>
\* 3.38 ff.: elements heavier than beryllium
Heavy(Z, d) ==
  LET g == NDiv(NMul(200, d), NMul(ME, Cube(Z)))  h == NDiv(NMul(200, d), NMul(ME, NSq(Cube(Z))))
      p1 == NSub(NSub("20.863", NMul(2, NLog(NAdd(1, NSq(NMul("0.55846", g)))))),
                 NMul(4, NSub(NSub(1, NMul("0.6", NExp(NMul("-0.9", g)))), NMul("0.4", NExp(NMul("-1.5", g))))))
      s1 == NSub(NSub("28.340", NMul(2, NLog(NAdd(1, NSq(NMul("3.621", h)))))),
                 NMul(4, NSub(NSub(1, NMul("0.7", NExp(NMul(-8, h)))), NMul("0.3", NExp(NMul("-29.2", h)))))) IN
  <<p1, NDiv(NDiv(2, 3), Poly(<<1, "6.5", 6>>, g)), s1, NDiv(NDiv(2, 3), Poly(<<1, 40, 400>>, h))>>
\* 3.46 ff.: lithium and beryllium
ThomasFermi(Z, d) ==
  LET a == NDiv(IF NLe(Z, "3.5") THEN 100 ELSE 106, NMul(ME, Cube(Z)))  ap == NDiv(IF NLe(Z, "3.5") THEN "418.6" ELSE "571.4", NMul(ME, NSq(Cube(Z))))
      one(b) == NSub(NNeg(NMul(2, NLog(NAdd(1, NSq(b))))), NMul(NMul(4, b), NAtan2(1, b)))
      two(b) == NAdd(NNeg(NMul(2, NLog(NAdd(1, NSq(b))))), NMul(NMul(8, NSq(b)), NSub(NSub(1, NMul(b, NAtan2(1, b))), NMul("0.75", NLog(NAdd(1, NDiv(1, NSq(b))))))))
      la == NLog(NMul(NMul(NSq(a), NSq(Cube(Z))), NSq(ME)))  lp == NLog(NMul(NMul(NSq(ap), NPow(Z, NDiv(4, 3))), NSq(ME)))
      b == NMul(d, a)  bp == NMul(d, ap) IN
  <<NAdd(NMul(2, NAdd(1, la)), one(b)), NSub(NAdd(NDiv(2, 3), one(b)), two(b)), NAdd(NMul(2, NAdd(1, lp)), one(bp)), NSub(NAdd(NDiv(2, 3), one(bp)), two(bp))>>
\* Li2(1 + u) - Li2(1) = - Integral_0^u ln s / (1 + s) ds
GX == <<"0.01985507175123188", "0.10166676129318664", "0.2372337950418355", "0.40828267875217511", "0.59171732124782489", "0.7627662049581645", "0.89833323870681336", "0.98014492824876812">>
GW == <<"0.05061426814518813", "0.11119051722668723", "0.15685332293894364", "0.18134189168918099", "0.18134189168918099", "0.15685332293894364", "0.11119051722668723", "0.05061426814518813">>
DilogStep(u) == LET a == NLog("1e-14")  b == NLog(u)  n == 30  h == NDiv(NSub(b, a), n) IN
  IF NLe(u, "1e-14") THEN 0 ELSE
  NNeg(NSum([k \in 1..8 * n |-> LET i == (k - 1) \div 8  j == 1 + ((k - 1) % 8)  y == NAdd(a, NMul(h, NAdd(i, GX[j])))  s == NExp(y) IN
                                NMul(NMul(h, GW[j]), NDiv(NMul(y, s), NAdd(1, s)))]))
\* 3.25 ff.: hydrogen and helium
OneElectron(Z, d) ==
  LET eta == IF NLe(Z, "1.5") THEN 1 ELSE "1.6875"  C == NDiv(d, NMul(NMul(2, ALPHA), NMul(ME, eta)))  C2 == NSq(C)  at == NMul(C, NAtan2(1, C))
      l == NLog(NDiv(1, NMul(NMul(2, eta), ALPHA)))  l1 == NLog(NAdd(1, C2))  l2 == NLog(NAdd(1, NDiv(1, C2)))  r == NDiv(1, NAdd(1, NDiv(1, C2)))  z == NLog(Z)
      lead(k, c) == NSub(NAdd(NAdd(NMul(NDiv(k, 3), z), NMul(4, l)), NDiv(c, 3)), NMul(2, l1))
      p1 == NAdd(NSub(lead(4, 13), NMul("6.5", at)), NDiv(r, 6))
      p2 == NSub(NAdd(lead(4, 11), NMul(NMul(25, C2), NSub(1, at))), NMul(NMul(14, C2), l2))
      s1 == NSub(NAdd(NSub(lead(8, 23), NMul("17.5", at)), NMul(NMul(8, C2), l2)), NDiv(r, 6))
      s2 == NSub(NAdd(NSub(lead(8, 21), NMul(NMul(105, C2), NSub(1, at))), NMul(NMul(50, C2), l2)),
                 NMul(NMul(24, C2), NAdd(NMul(NNeg(NLog(C2)), l2), DilogStep(NDiv(1, C2))))) IN
  <<p1, NSub(p1, p2), s1, NSub(s1, s2)>>
\* formula 3.9, with the change from the momentum of the electron to x
TsaiPair(e, x) ==
  LET Z == e.t.Z  d == PairDelta(ME, e.E, x)  w == IF NLe(Z, "2.5") THEN OneElectron(Z, d) ELSE IF NLe(Z, "4.5") THEN ThomasFermi(Z, d) ELSE Heavy(Z, d)
      p1 == w[1]  p12 == w[2]  s1 == w[3]  s12 == w[4]
      z == NSq(NDiv(Z, 137))  f == NAdd(NSub(NMul("1.202", z), NMul("1.0369", NSq(z))), NDiv(NMul("1.008", NPow(z, 3)), NAdd(1, z)))  L == NLog(Z)
      a == NSub(NMul(NAdd(NSub(NMul(NDiv(4, 3), NSq(x)), NMul(NDiv(4, 3), x)), 1),
                     NAdd(NMul(NSq(Z), NSub(NSub(p1, NMul(NDiv(4, 3), L)), NMul(4, f))), NMul(Z, NSub(s1, NMul(NDiv(8, 3), L))))),
                NMul(NMul(NDiv(2, 3), NMul(x, NSub(1, x))), NAdd(NMul(NSq(Z), p12), NMul(Z, s12)))) IN
  Max0(NMul(NDiv(NAV, e.t.A), NMul(NMul(NDiv(NMul(ALPHA, NSq(RE)), e.E), a), NDiv(NMul(x, NSq(e.E)), NSqrt(NSub(NSq(NMul(x, e.E)), NSq(ME)))))))
KochMotz(e, x) ==
  LET Z == e.t.Z  L == RadLog(Z)  f == Coulomb(Z)  xi == NDiv(L[2], NSub(L[1], f))  ff == IF NLt(e.E, 50) THEN 0 ELSE f
      s == Screen(NDiv(NMul(NMul(NDiv(136, Cube(Z)), 2), PairDelta(ME, e.E, x)), ME))  c == NAdd(NMul(NDiv(4, 3), NLog(Z)), NMul(4, ff)) IN
  NMul(NMul(NDiv(NAV, e.t.A), NMul(Z, NAdd(Z, xi))),
       NMul(NMul(NSq(RE), ALPHA), NAdd(NMul(NAdd(NSub(NMul(2, NSq(x)), NMul(2, x)), 1), NSub(s[1], c)), NMul(NMul(NDiv(2, 3), NMul(x, NSub(1, x))), NSub(s[2], c)))))
MuPair(e, x) ==
  LET t == e.t  Z == t.Z  Z3 == NDiv(1, Cube(Z))  d == PairDelta(MMU, e.E, x)  D == Dn(t)
      a1 == NDiv(NMul(NMul(NDiv(MMU, ME), t.log), Z3), NAdd(1, NDiv(NMul(NMul(NMul(t.log, Z3), SQRTE), d), ME)))
      a2 == NDiv(D, NAdd(1, NDiv(NMul(d, NSub(NMul(D, SQRTE), 2)), MMU)))
      phi == NSub(NLog(a1), NMul(IF NGt(Z, 1) THEN NSub(1, NDiv(1, Z)) ELSE 1, NLog(a2)))
      el == NDiv(NSub(NLog(NDiv(NDiv(MMU, d), NAdd(NDiv(NMul(d, MMU), NSq(ME)), SQRTE))),
                      NLog(NAdd(1, NDiv(1, NDiv(NMul(NMul(d, SQRTE), NMul(t.bp, NSq(Z3))), ME))))), Z)
      w == NAdd(NAdd(NSq(x), NSq(NSub(1, x))), NMul(NDiv(2, 3), NMul(x, NSub(1, x)))) IN
  Max0(NMul(NDiv(NAV, t.A), NMul(NMul(NMul(NMul(4, NSq(Z)), ALPHA), NSq(NDiv(NMul(RE, ME), MMU))), NMul(NAdd(phi, el), w))))
\* photon-nucleon cross sections (microbarn) at photon energy E
Threshold(t) == NAdd(MPI, NDiv(NSq(MPI), NMul(2, t.M)))
Resonances == << <<"1.231", "0.11", "31.125", "0.17">>, <<"1.515", "0.11", "25.567", "0.38">>, <<"1.680", "0.125", "17.508", "0.38">> >>
\* where Rhode's table has its points (the first that are not below the threshold)
RhodeX == <<"0.20893", "0.301995", "0.436516", "0.630957", "0.912011", "1.31826", "1.90546", "2.75423", "3.98107", "5.7544", "8.31764", "12.0226", "17.378", "25.1189", "36.3078", "52.4807", "75.8577", "109.648", "158.489">>
RhodeY == <<"159.74", "508.103", "215.77", "236.403", "201.919", "151.381", "145.407", "132.096", "128.546", "125.046", "121.863", "119.16", "117.022", "115.496", "114.607", "114.368", "114.786", "115.864", "117.606">>
Nucleon(name, E, t) ==
  LET n == NDiv(E, 1000)  bb == NAdd("114.3", NMul("1.647", NSq(NLog(NMul("0.0213", n)))))
      cald == NAdd(NAdd("49.2", NMul("11.1", NLog(n))), NDiv("151.8", NSqrt(n))) IN
  IF NLt(E, Threshold(t)) THEN 0 ELSE
  CASE name = "Zeus" -> LET s == NMul(NMul("2e-3", n), t.M) IN NAdd(NMul("63.5", NPow(s, "0.097")), NDiv(145, NSqrt(s)))
    [] name = "BezrukovBugaev" -> bb
    [] name = "Caldwell" -> cald
    [] name = "Kokoulin" -> IF NLe(n, 17) THEN NAdd("96.1", NDiv(82, NSqrt(n))) ELSE IF NLe(n, 200) THEN bb ELSE cald
    [] name = "Rhode" -> IF NLe(n, 100) THEN (IF \E k \in DOMAIN RhodeX : NClose(n, RhodeX[k], "1e-14", 0) THEN RhodeY[CHOOSE k \in DOMAIN RhodeX : NClose(n, RhodeX[k], "1e-14", 0)] ELSE -1)
                         ELSE IF NLe(n, 200) THEN -1 ELSE cald
    [] name \in {"Heck", "HeckC7Shadowing"} ->
         LET m == NDiv(t.M, 1000)  s == NMul(m, NAdd(m, NMul(2, n)))  q(w) == NMin(1, Max0(NDiv(NSub(n, "0.152"), w)))
             cont == IF NLt(NSqrt(s), "19.39") THEN NMul(NAdd(NMul("73.7", NPow(s, "0.073")), NMul("191.7", NPow(s, "-0.602"))), NSqrt(NSub(1, NDiv(NSq("1.0761"), s))))
                     ELSE NAdd(NMul("59.3", NPow(s, "0.093")), NMul("120.2", NPow(s, "-0.358")))
             bw(r) == LET g == NMul(NSq(r[2]), s) IN NMul(NMul(NDiv(s, NSq(n)), r[3]), NMul(NDiv(g, NAdd(NSq(NSub(s, NSq(r[1]))), g)), q(r[4]))) IN
         NAdd(cont, NSum([i \in 1..3 |-> bw(Resonances[i])]))
\* Bezrukov and Bugaev with the photon cross section s
Real(e, v, s) ==
  LET m1 == "0.54"  m2 == "1.80"  k == NAdd(NSub(1, NDiv(2, v)), NDiv(2, NSq(v)))
      x == NMul(NMul("0.00282", Cube(e.t.A)), s)
      G == IF NEq(e.t.Z, 1) THEN 3 ELSE NMul(3, NMul(NDiv(3, x), NAdd("0.5", NDiv(NSub(NMul(NAdd(1, x), NExp(NNeg(x))), 1), NSq(x)))))
      mu == NSq(NDiv(e.m, 1000))  t == NDiv(NMul(NSq(v), mu), NSub(1, v))  w == NDiv(NMul(2, mu), t)
      a == NSub(NSub(NMul(NAdd(k, NDiv(NMul(4, mu), m1)), NLog(NAdd(1, NDiv(m1, t)))), NDiv(NMul(k, m1), NAdd(m1, t))), w)
      b == NSub(NMul(NAdd(k, NDiv(NMul(2, mu), m2)), NLog(NAdd(1, NDiv(m2, t)))), w)
      c == NMul(w, NAdd(NDiv(NMul(G, NSub(m1, NMul(4, t))), NAdd(m1, t)), NMul(NDiv(m2, t), NLog(NAdd(1, NDiv(t, m2)))))) IN
  NMul(NMul(NMul(NMul(NAV, NSq(e.q)), NDiv(ALPHA, NMul(8, PI))), NMul(NMul(v, s), "1e-30")), NAdd(NMul(G, a), NAdd(b, c)))
\* the processes whose formula is given here
Explicit(e) == ~e.lpm /\
  (\/ e.kind \in {"brems", "ioniz", "compton", "photopair", "photomupair"}
   \/ e.kind = "real" /\ ~e.hard)
Sigma(e, s) == LET v == s.v IN
  CASE e.kind = "brems" ->
         LET a == NMul(NMul(NSq(e.q), NDiv(ME, e.m)), RE)  p == IF e.name = "ElectronScreening" THEN a ELSE NMul(NMul(2, a), e.t.Z) IN
         NMul(NDiv(NAV, e.t.A), NMul(NMul(NSq(p), NDiv(ALPHA, v)), Brems(e, v)))
    [] e.kind = "ioniz" -> Ioniz(e, v)
    [] e.kind = "compton" -> Compton(e, v)
    [] e.kind = "photopair" -> IF e.name = "Tsai" THEN TsaiPair(e, v) ELSE KochMotz(e, v)
    [] e.kind = "photomupair" -> MuPair(e, v)
    [] e.kind = "real" -> Real(e, v, s.s)
\* corrections by a table at low energies, the same for all v
Corrected(e) == (e.kind = "brems" /\ e.name = "ElectronScreening" /\ NLt(e.E, 50)) \/ (e.kind = "photopair" /\ e.name = "KochMotz" /\ NLe(e.E, 50))
\* published formulas that turn negative at the edge of the phase space and are not cut off there
Signed(e) == \/ e.kind = "brems" /\ e.name \in {"KelnerKokoulinPetrukhin", "PetrukhinShestakov", "ElectronScreening"}
             \/ e.kind = "ioniz" /\ e.name = "BetheBlochRossi"
             \/ e.kind = "photopair" /\ e.name = "KochMotz"
             \/ e.kind = "real"
=============================================================================

---------------------------- MODULE Secondaries ----------------------------
(* What is left after a stochastic interaction: a calculator per kind of      *)
(* interaction, the particles it makes, how they share the energy and where   *)
(* they go.  A calculator needs as many random numbers r as it announces.     *)
(* e: kind, name, m and p (mass and type of the particle), E, loss, dir,      *)
(* comp (target), rnd                                                         *)
EXTENDS Rates, TLC
HADRON == 81
Calculators == {"BremsNoDeflection", "BremsEGS4Approximation", "BremsKochMotz", "NaivIonization", "KelnerKokoulinPetrukhinEpairProduction", "ForElectronPositronEpairProduction",
  "KelnerKokoulinPetrukhinMupairProduction", "Photonuclear", "NaivCompton", "HeitlerAnnihilation", "PhotoeffectNoDeflection", "Photoproduction", "PhotoPairTsaiForwardPeaked", "PhotoPairTsai", "PhotoPairTsaiSauter",
  "PhotoPairKochMotzForwardPeaked", "PhotoPairKochMotzSauter", "PhotoMuPairBurkhardtKelnerKokoulin", "WeakCooperSarkarMertsch"}
Kind(n) ==
  CASE n \in {"BremsNoDeflection", "BremsEGS4Approximation", "BremsKochMotz"} -> "brems"
    [] n = "NaivIonization" -> "ioniz" [] n \in {"KelnerKokoulinPetrukhinEpairProduction", "ForElectronPositronEpairProduction"} -> "epair"
    [] n = "KelnerKokoulinPetrukhinMupairProduction" -> "mupair" [] n = "Photonuclear" -> "nuclear" [] n = "NaivCompton" -> "compton"
    [] n = "HeitlerAnnihilation" -> "annihilation" [] n = "PhotoeffectNoDeflection" -> "photoeffect" [] n = "Photoproduction" -> "photoproduction"
    [] n = "PhotoMuPairBurkhardtKelnerKokoulin" -> "photomupair" [] n = "WeakCooperSarkarMertsch" -> "weak" [] OTHER -> "photopair"
Needs(n) ==
  CASE n \in {"BremsNoDeflection", "Photonuclear", "PhotoeffectNoDeflection", "Photoproduction"} -> 0
    [] n \in {"BremsEGS4Approximation", "NaivIonization", "NaivCompton", "WeakCooperSarkarMertsch"} -> 1
    [] n \in {"BremsKochMotz", "HeitlerAnnihilation", "PhotoMuPairBurkhardtKelnerKokoulin"} -> 2
    [] Kind(n) \in {"epair", "mupair"} -> 3 [] Kind(n) = "photopair" -> 4
\* the calculator chosen if none is given
Default(kind) ==
  CASE kind = "brems" -> "BremsEGS4Approximation" [] kind = "ioniz" -> "NaivIonization" [] kind = "epair" -> "KelnerKokoulinPetrukhinEpairProduction" [] kind = "mupair" -> "KelnerKokoulinPetrukhinMupairProduction"
    [] kind = "nuclear" -> "Photonuclear" [] kind = "compton" -> "NaivCompton" [] kind = "annihilation" -> "HeitlerAnnihilation" [] kind = "photoeffect" -> "PhotoeffectNoDeflection" [] kind = "photoproduction" -> "Photoproduction"
(* ------------------------------------------------ one calculator per kind *)
NoCalculators == << >>
Kinds == {"brems", "ioniz", "epair", "mupair", "nuclear", "compton", "annihilation", "photopair", "photomupair", "photoeffect", "photoproduction", "weak"}
Add(s, n) == [k \in DOMAIN s \cup {Kind(n)} |-> IF k = Kind(n) THEN n ELSE s[k]]
(* ---------------------------------------------------------------- products *)
\* the neutrino that takes the charged lepton's place
Partner(p) == IF p > 0 THEN p + 1 ELSE p - 1
Types(kind, p) ==
  CASE kind = "brems" -> <<p, 22>> [] kind = "ioniz" -> <<p, 11>> [] kind = "epair" -> <<p, 11, -11>> [] kind = "mupair" -> <<p, 13, -13>> [] kind = "nuclear" -> <<p, HADRON>>
    [] kind = "compton" -> <<22, 11>> [] kind = "annihilation" -> <<22, 22>> [] kind = "photopair" -> <<11, -11>> [] kind = "photomupair" -> <<13, -13>>
    [] kind = "photoeffect" -> <<11>> [] kind = "photoproduction" -> <<HADRON>> [] kind = "weak" -> <<Partner(p), HADRON>>
\* the energy that appears: an electron of the target adds its mass, minus what binds it if that counts
Available(e) == CASE e.kind \in {"ioniz", "compton", "annihilation"} -> NAdd(e.E, ME) [] e.kind = "photoeffect" -> NSub(NAdd(e.E, ME), KEnergy(e.comp)) [] OTHER -> e.E
Mass(e, type) == CASE type = e.p -> e.m [] type \in {11, -11} -> ME [] type \in {13, -13} -> MMU [] OTHER -> 0
\* energies that the loss alone determines
Fixed(e) == CASE e.kind \in {"brems", "nuclear"} -> <<NSub(e.E, e.loss), e.loss>> [] e.kind \in {"ioniz", "compton"} -> <<NSub(e.E, e.loss), NAdd(e.loss, ME)>>
              [] e.kind \in {"epair", "mupair"} -> <<NSub(e.E, e.loss)>> [] e.kind \in {"photoeffect", "photoproduction"} -> <<Available(e)>> [] OTHER -> << >>
\* those that the first random number selects: the part of the distribution below what was chosen
Shared(e) == e.kind \in {"epair", "mupair", "photopair", "photomupair", "weak"}
Fraction(e) == LET a == Moments(e.part[1], {0})[0]  b == Moments(e.part[2], {0})[0] IN NDiv(a, NAdd(a, b))
Annihilated(e, rho) ==
  LET g == NDiv(e.E, ME)  q == NSqrt(NDiv(NSub(g, 1), NAdd(g, 1)))  a2 == NDiv(1, NSq(NAdd(g, 1)))  a1 == NAdd(1, NMul(2, NMul(g, a2)))
      lo == NDiv(1, NMul(NAdd(g, 1), NAdd(1, q)))  hi == NDiv(NAdd(1, q), 2)  F(x) == NSub(NAdd(NMul(a1, NLog(x)), NDiv(a2, x)), x) IN
  NDiv(NSub(F(rho), F(lo)), NSub(F(hi), F(lo)))
(* --------------------------------------------------------------- directions *)
Turn(r) == NMul(NMul(2, PI), r)
Back(r) == NAdd(Turn(r), PI)
Impulse(E, m) == NSqrt(NMul(NSub(E, m), NAdd(E, m)))
Unit(v) == VScale(NDiv(1, VNorm(v)), v)
\* cosines of the angles of a particle (m1, E1) that hits an electron at rest and of what comes out, with energy E2 and mass m2
Cosine(m1, E1, m2, E2, rest) == NDiv(NSub(NMul(NAdd(E1, ME), E2), NAdd(NMul(E1, ME), rest)), NMul(Impulse(E1, m1), Impulse(E2, m2)))
SauterCos(E, r) == LET p == Impulse(E, ME)  c == NSub(NMul(2, r), 1) IN NDiv(NAdd(NMul(E, c), p), NAdd(NMul(p, c), E))
\* what determines the direction of a product: polar angle (its cosine) and azimuth, the azimuth alone, or what is left of the momentum
T(c, az) == <<"turned", c, az>>
Angles(e, En) ==
  LET r == e.rnd  E == e.E  both(c) == << T(c, Turn(r[2])), T(c, Back(r[2])) >>
      hit(i) == NDiv(NMul(NAdd(E, ME), NSub(En[i], ME)), NMul(Impulse(E, ME), En[i])) IN
  CASE e.name = "BremsEGS4Approximation" -> << <<"recoil">>, T(NCos(NDiv(e.m, E)), Turn(r[1])) >>
    [] e.name = "BremsKochMotz" -> << <<"recoil">>, <<"any", 0, Turn(r[2])>> >>
    [] e.kind = "ioniz" -> << T(Cosine(e.m, E, e.m, En[1], NSq(e.m)), Turn(r[1])), T(Cosine(e.m, E, ME, En[2], NSq(ME)), Back(r[1])) >>
    [] e.kind = "compton" -> << T(Cosine(0, E, 0, En[1], 0), Turn(r[1])), T(Cosine(0, E, ME, En[2], NSq(ME)), Back(r[1])) >>
    [] e.kind = "annihilation" -> << T(hit(1), Turn(r[2])), T(hit(2), Back(r[2])) >>
    [] e.name \in {"PhotoPairTsaiForwardPeaked", "PhotoPairKochMotzForwardPeaked"} -> both(NCos(NDiv(ME, E)))
    [] e.name \in {"PhotoPairTsaiSauter", "PhotoPairKochMotzSauter"} -> << T(SauterCos(En[1], r[3]), Turn(r[2])), T(SauterCos(En[2], r[4]), Back(r[2])) >>
    [] e.name = "PhotoPairTsai" -> << <<"any", 0, Turn(r[4])>>, <<"any", 0, Back(r[4])>> >>
    [] e.kind = "photomupair" -> both(NCos(NDiv(MMU, E)))
    [] OTHER -> [i \in 1..Len(En) |-> T(1, 0)]
(* Tsai, Rev. Mod. Phys. 46 (1974), (3.5): angle t of an electron with the part x of the photon's energy E *)
TsaiAngle(E, x, t, c) ==
  LET Z == c.Z  Z3 == NDiv(1, Cube(Z))  l == NSq(NDiv(NMul(NMul(E, x), t), ME))  ll == NAdd(1, l)  G2 == NAdd(NSq(Z), Z)  y == NMul(x, NSub(1, x))
      tm == NDiv(NMul(NSq(ME), ll), NMul(2, NMul(E, y)))  z == NSq(NDiv(Z, 137))
      f == NAdd(NSub(NMul("1.202", z), NMul("1.0369", NSq(z))), NDiv(NMul("1.008", NPow(z, 3)), NAdd(1, z)))
      light == NLt(Z, "2.5")  eta == IF NLt(Z, "1.5") THEN 1 ELSE "1.6875"  d == NDiv(NSq(ME), NMul(2, NMul(E, y)))
      B2 == NSq(NDiv(NMul(NMul(2, ALPHA), NMul(ME, eta)), tm))  lg == NSub(NMul(2, NLog(NDiv(ME, d))), NLog(NAdd(1, B2)))
      el == IF light THEN NMul(NSq(Z), NAdd(NAdd(lg, NDiv(1, 6)), NAdd(NNeg(NDiv(NDiv(4, 3), NAdd(1, B2))), NDiv(NDiv(1, 6), NSq(NAdd(1, B2))))))
            ELSE LET a == NDiv(NMul(CASE NLe(Z, "3.5") -> 100 [] NLe(Z, "4.5") -> 106 [] OTHER -> "111.7", Z3), ME) IN NMul(NSq(Z), NSub(NLog(NDiv(NSq(NMul(a, NMul(ME, ll))), NAdd(NSq(NMul(a, tm)), 1))), 1))
      inel == IF light THEN NMul(Z, NAdd(NAdd(lg, NDiv(11, 6)), NAdd(NNeg(NMul(NDiv(4, B2), NLog(NAdd(1, B2)))), NSub(NDiv(NDiv(4, 3), NAdd(1, B2)), NDiv(NDiv(1, 6), NSq(NAdd(1, B2)))))))
            ELSE LET a == NDiv(NMul(CASE NLe(Z, "3.5") -> "418.6" [] NLe(Z, "4.5") -> "571.4" [] OTHER -> "724.2", NSq(Z3)), ME) IN NMul(Z, NSub(NLog(NDiv(NSq(NMul(a, NMul(ME, ll))), NAdd(NSq(NMul(a, tm)), 1))), 1))
      X == NSub(NAdd(el, inel), NMul(NMul(2, NSq(Z)), f)) IN
  NMul(NSin(t), NAdd(NMul(G2, NSub(NDiv(NMul(2, y), NSq(ll)), NDiv(NMul(12, NMul(l, y)), NPow(ll, 4)))),
                     NMul(X, NAdd(NDiv(NSub(1, NMul(2, y)), NSq(ll)), NDiv(NMul(4, NMul(l, y)), NPow(ll, 4))))))
\* part of the angles below t
TsaiBelow(E, x, t, c) ==
  LET w == NDiv(ME, NMul(x, E))  a == NMul("1e-3", w)
      I(lo, hi) == LET ya == NLog(lo)  n == 12  h == NDiv(NSub(NLog(hi), ya), n) IN
        NSum([k \in 1..8 * n |-> LET u == NExp(NAdd(ya, NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)])))) IN NMul(NMul(h, GW[1 + ((k - 1) % 8)]), NMul(u, TsaiAngle(E, x, u, c)))]) IN
  IF NLe(t, a) THEN 0 ELSE LET b == I(a, t) IN NDiv(b, NAdd(b, I(t, PI)))
(* Koch and Motz as in EGS5 (2.152): the angle of a photon in y = x/(1+x), x = (E angle/ME)^2 *)
KmG(y, r, E0, Z) ==
  LET x1 == NSub(1, y)  r2 == NAdd(1, NSq(r))  m == NAdd(NSq(NDiv(NSub(1, r), NMul(NMul(2, E0), r))), NSq(NMul(NDiv(Cube(Z), 111), x1))) IN
  NSub(NSub(NMul(3, r2), NMul(2, r)), NMul(NAdd(4, NLog(m)), NSub(r2, NMul(4, NMul(r, NMul(y, x1))))))
KmBelow(e, phi) ==
  LET E0 == NDiv(e.E, ME)  r == NDiv(NSub(e.E, e.g), e.E)  Y(x) == NDiv(x, NAdd(1, x))  top == Y(NSq(NMul(PI, E0)))  y == Y(NSq(NMul(E0, phi)))
      gm == NMax(KmG(0, r, E0, e.Z), NMax(KmG("0.5", r, E0, e.Z), KmG(top, r, E0, e.Z)))
      I(a, b) == LET n == 10  h == NDiv(NSub(b, a), n) IN NSum([k \in 1..8 * n |-> NMul(NMul(h, GW[1 + ((k - 1) % 8)]), NMax(0, NMin(gm, KmG(NAdd(a, NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)]))), r, E0, e.Z))))])
      b == I(0, y) IN NDiv(b, NAdd(b, I(y, top)))
=============================================================================

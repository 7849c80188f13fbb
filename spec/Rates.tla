------------------------------- MODULE Rates -------------------------------
(* What follows from a differential cross section: the rate of the losses     *)
(* above the cut and how they are shared among the components, the loss that  *)
(* a random number selects, the continuous loss and its spread below the cut. *)
(* The integrals are sums over samples of the differential cross section at   *)
(* nodes fixed here (8 points per interval, even in ln v/(1-v), with          *)
(* intervals that shrink towards both ends).                                  *)
EXTENDS CrossSections
Logit(v) == NSub(NLog(v), NLog(NSub(1, v)))
Breaks(a, b) ==
  LET ya == Logit(IF NGt(a, 0) THEN a ELSE NMul("1e-10", b))  yb == Logit(NMin(b, NSub(1, "1e-12")))
      n == 1 + NFloor(NDiv(NSub(yb, ya), "1.2"))  h == NDiv(NSub(yb, ya), n)  s(k) == NDiv(h, NMul(2, 4 ^ k)) IN
  <<ya>> \o [k \in 1..9 |-> NAdd(ya, s(9 - k))] \o [i \in 1..n - 1 |-> NAdd(ya, NMul(i, h))] \o [k \in 1..9 |-> NSub(yb, s(k - 1))] \o <<yb>>
\* nodes of a region: <<v, weight>>
Nodes(a, b) == LET y == Breaks(a, b) IN
  [k \in 1..8 * (Len(y) - 1) |-> LET i == 1 + (k - 1) \div 8  j == 1 + ((k - 1) % 8)  d == NSub(y[i + 1], y[i])  x == NExp(NAdd(y[i], NMul(GX[j], d)))  c == NDiv(1, NAdd(1, x)) IN
                                 <<NMul(x, c), NMul(NMul(d, GW[j]), NMul(NMul(x, c), c))>>]
\* a region r: a, b, and the samples n of <<v, cross section>>; the moments 0, 1, 2, or "bad" if it was sampled elsewhere
Moments(r, ps) ==
  IF ~NLt(r.a, r.b) THEN [p \in ps |-> 0] ELSE
  LET q == Nodes(r.a, r.b)  N == Len(q)  f == [k \in 1..N |-> NMul(q[k][2], r.n[k][2])] IN
  IF Len(r.n) # N \/ \E k \in 1..N : ~NClose(r.n[k][1], q[k][1], "1e-9", 0) THEN [p \in ps |-> "nan"]
  ELSE [p \in ps |-> IF p = 0 THEN NSum(f) ELSE NSum([k \in 1..N |-> NMul(f[k], IF p = 1 THEN q[k][1] ELSE NSq(q[k][1]))])]
Chain(rs, a, b) == /\ Len(rs) > 0 /\ NClose(rs[1].a, a, "1e-10", "1e-15") /\ NClose(rs[Len(rs)].b, b, "1e-10", "1e-15")
                   /\ \A i \in 1..Len(rs) - 1 : NEq(rs[i].b, rs[i + 1].a)
Moment(rs, p) == NSum([i \in 1..Len(rs) |-> Moments(rs[i], {p})[p]])
\* scale of an integral in which parts may cancel
Scale(rs) == NSum([i \in 1..Len(rs) |-> IF ~NLt(rs[i].a, rs[i].b) THEN 0 ELSE LET q == Nodes(rs[i].a, rs[i].b) IN NSum([k \in 1..Len(q) |-> NAbs(NMul(q[k][2], rs[i].n[k][2]))])])
(* ------------------------------------------------------------------- cut *)
\* losses of at least this part of the energy are stochastic; cut: <<>> (all of them) or <<[e, v, rand]>>
CutAt(cut, lim, E) == IF cut = << >> THEN lim[1] ELSE NMin(NMax(lim[1], NMin(NDiv(cut[1].e, E), cut[1].v)), lim[2])
Stochastic(cut) == IF cut = << >> THEN TRUE ELSE ~(NEq(cut[1].e, "inf") /\ NEq(cut[1].v, 1))
Weight(w, i) == NDiv(NMul(w[i].k, w[i].A), NSum([j \in 1..Len(w) |-> NMul(w[j].k, w[j].A)]))
(* ------------------------------------------- continuous loss by ionization *)
Density(t, bg) ==
  LET X == NDiv(NLog(bg), NLog(10))  l == NMul(2, NLog(bg)) IN
  IF NLt(X, t.x0) THEN NMul(t.d0, NPow(10, NMul(2, NSub(X, t.x0))))
  ELSE IF NLt(X, t.x1) THEN NAdd(NSub(l, t.C), NMul(t.a, NPow(NSub(t.x1, X), t.mm))) ELSE NSub(l, t.C)
\* mean loss by collisions below the cut vc: Bethe, Bloch, Rossi (muons, taus); Berger, Seltzer (electrons, positrons)
Restricted(e, t, vc, vmax) ==
  LET g == NDiv(e.E, e.m)  b2 == NSub(1, NDiv(1, NSq(g)))  bg == NSqrt(NSub(NSq(g), 1))  I == NMul("1e-6", t.I)
      s == NDiv(vc, NMul(2, NAdd(1, NDiv(1, g))))
      bbr == NSub(NAdd(NAdd(NLog(NMul(vc, NMul(NMul(2, ME), e.E))), NMul(2, NLog(NDiv(bg, I)))), NSq(s)), NAdd(NMul(b2, NAdd(1, NDiv(vc, vmax))), Density(t, bg)))
      tau == NSub(g, 1)  d == NMul(vc, g)  y == NDiv(1, NAdd(g, 1))
      plus == NSub(NLog(NMul(tau, d)), NMul(NDiv(b2, tau), NSub(NSub(NSub(NAdd(tau, NMul(2, d)), NMul(NDiv(3, 2), NMul(NSq(d), y))), NMul(NSub(d, NDiv(NPow(d, 3), 3)), NSq(y))),
                    NMul(NAdd(NSub(NDiv(NSq(d), 2), NMul(NDiv(tau, 3), NPow(d, 3))), NDiv(NPow(d, 4), 4)), NPow(y, 3)))))
      minus == NAdd(NAdd(NDiv(NAdd(NDiv(NSq(d), 2), NMul(NAdd(NMul(2, tau), 1), NLog(NSub(1, NDiv(d, tau))))), NSq(g)), NSub(NSub(0, 1), b2)),
                    NAdd(NLog(NMul(NSub(tau, d), d)), NDiv(tau, NSub(tau, d))))
      bs(f) == NSub(NAdd(NAdd(NLog(NMul(2, NAdd(tau, 2))), NMul(2, NLog(NDiv(ME, I)))), f), Density(t, bg)) IN
  NMax(0, IF e.name = "BetheBlochRossi" THEN NMul(NDiv(NMul(NMul(IONK, NSq(e.q)), ZA(t)), NMul(2, b2)), bbr)
          ELSE NMul(NMul(NDiv(NMul(NMul(2, PI), NMul(NSq(RE), ME)), b2), NMul(NAV, ZA(t))), bs(IF e.name = "BergerSeltzerBhabha" THEN plus ELSE minus)))
\* besides, for muons: photons radiated by the electrons hit, an integral over the rest of the cross section
Radiative(e, t, vup, rs) ==
  NSum([i \in 1..Len(rs) |-> IF ~NLt(rs[i].a, rs[i].b) THEN 0 ELSE LET q == Nodes(rs[i].a, rs[i].b)  ee == [E |-> e.E, m |-> e.m, q |-> e.q, t |-> t] IN
     NSum([k \in 1..Len(q) |-> LET v == rs[i].n[k][1]  c == InelBBR(ee, v, vup) IN NMul(NMul(NMul(q[k][2], v), rs[i].n[k][2]), NDiv(c, NAdd(1, c)))])])
(* ---------------------------------------- processes without energy spectrum *)
KEnergy(c) == NDiv(NMul(NSq(NMul(c.Z, ALPHA)), ME), 2)
PionThreshold(c) == NAdd(MPI, NDiv(NSq(MPI), NMul(2, c.M)))
Heitler(E, c) == LET g == NDiv(E, ME)  p == NSqrt(NMul(NSub(g, 1), NAdd(g, 1)))  p2 == NMul(NSub(g, 1), NAdd(g, 1)) IN
  IF NLe(E, ME) THEN 0 ELSE
  NMul(NMul(NMul(c.Z, PI), NDiv(NSq(RE), NAdd(g, 1))), NSub(NMul(NDiv(NAdd(NAdd(NSq(g), NMul(4, g)), 1), p2), NLog(NAdd(g, p))), NDiv(NAdd(g, 3), p)))
Sauter(E, c) ==
  LET g == NAdd(1, NDiv(NSub(E, KEnergy(c)), ME))  p == NSqrt(NMul(NSub(g, 1), NAdd(g, 1)))  Z == c.Z
      s == NMul(NMul(NMul(NMul(4, PI), NSq(RE)), NMul(NMul(NPow(Z, 5), NPow(ALPHA, 4)), NPow(NDiv(ME, E), 5))),
                NMul(NPow(p, 3), NAdd(NDiv(4, 3), NMul(NDiv(NMul(g, NSub(g, 2)), NAdd(g, 1)), NSub(1, NDiv(NLog(NAdd(g, p)), NMul(g, p)))))))
      x == NDiv(NMul(NMul(Z, ALPHA), g), p)
      \* slow electrons: x pi / sinh(x pi) exp(x (pi - 4 atan(1/x)))
      c1 == NDiv(NMul(NMul(NMul(2, PI), x), NExp(NMul(NMul(-4, x), NAtan2(1, x)))), NSub(1, NExp(NMul(NMul(-2, PI), x))))
      L == NLog(Z)  shells == NAdd(1, NSub(NMul("0.01481", NSq(L)), NMul("0.000788", NPow(L, 3)))) IN
  IF NLe(E, KEnergy(c)) THEN 0 ELSE NMul(NMul(s, NMul(NAdd(1, NSq(x)), c1)), shells)
\* s: cross section per nucleon in microbarn
OnNucleus(c, s) == LET x == NMul(NMul("0.00282", Cube(c.A)), s)
                       shadow == IF NEq(c.Z, 1) THEN 1 ELSE NMul(NDiv(3, NPow(x, 3)), NAdd(NSub(NDiv(NSq(x), 2), 1), NMul(NExp(NNeg(x)), NAdd(1, x)))) IN
  IF NEq(s, 0) THEN 0 ELSE NMul(NMul(c.A, s), NMul("1e-30", NAdd(NMul("0.75", shadow), "0.25")))
DirectRate(name, E, comp, i) ==
  LET c == comp[i]  s == CASE name = "Heitler" -> Heitler(E, c) [] name = "Sauter" -> Sauter(E, c) [] name = "HeckC7Shadowing" -> NMul(NMul(c.s, "1e-30"), NPow(c.A, "0.91")) [] OTHER -> OnNucleus(c, c.s) IN
  NMul(NDiv(NMul(NAV, s), c.A), Weight(comp, i))
=============================================================================

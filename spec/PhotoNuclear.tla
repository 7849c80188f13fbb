--------------------------- MODULE PhotoNuclear ----------------------------
(* Inelastic interactions with nuclei by exchange of a virtual photon: the    *)
(* differential cross section is an integral over its virtuality Q2 of the    *)
(* structure function of the nucleus, with the shadowing of the nucleons by   *)
(* each other. e.shadow names the model of that.                              *)
EXTENDS PairProduction
\* Abramowicz, Levin, Levy, Maor: parameters of the exchanged trajectories, squared masses in GeV^2
Allm(n) ==
  CASE n = "AbramowiczLevinLevyMaor91" ->
         [ap |-> <<"-0.04503", "-0.36407", "8.17091">>, bp |-> <<NSq("0.49222"), NSq("0.52116"), "3.55115">>, cp |-> <<"0.26550", "0.04856", "1.04682">>,
          ar |-> <<"0.60408", "0.17353", "1.61812">>, br |-> <<NSq("1.26066"), NSq("1.83624"), "0.81141">>, cr |-> <<"0.67639", "0.49027", "2.66275">>,
          m0 |-> "0.30508", mp |-> "10.67564", mr |-> "0.20623", l |-> "0.06527", q0 |-> NAdd("0.27799", "0.06527")]
    [] n \in {"AbramowiczLevinLevyMaor97", "RenoSarcevicSu"} ->
         [ap |-> <<"-0.0808", "-0.44812", "1.1709">>, bp |-> <<"0.36292", "1.8917", "1.8439">>, cp |-> <<"0.28067", "0.22291", "2.1979">>,
          ar |-> <<"0.58400", "0.37888", "2.6063">>, br |-> <<"0.01147", "3.7582", "0.49338">>, cr |-> <<"0.80107", "0.97307", "3.4942">>,
          m0 |-> "0.31985", mp |-> "49.457", mr |-> "0.15052", l |-> "0.06527", q0 |-> "0.52544"]
    [] n = "AbtFT" ->
         [ap |-> <<"-0.075", "-0.470", "9.2">>, bp |-> <<"-0.477", "54.0", "0.073">>, cp |-> <<"0.356", "0.171", "18.6">>,
          ar |-> <<"0.882", "0.082", "-8.5">>, br |-> <<"0.339", "3.38", "1.07">>, cr |-> <<"-0.636", "3.37", "-0.660">>,
          m0 |-> "0.388", mp |-> "50.8", mr |-> "0.838", l |-> "4.4e-9", q0 |-> "1.87e-5"]
\* squared GeV in squared MeV
G2(x) == NMul("1e6", x)
\* nu: energy of the photon, Q2 its virtuality, M: mass of a nucleon
Bjorken(M, nu, Q2) == NDiv(Q2, NMul(2, NMul(M, nu)))
ProtonAllm(p, M, nu, Q2) ==
  LET x == Bjorken(M, nu, Q2)  t == Max0(NLog(NDiv(NLog(NDiv(NAdd(Q2, G2(p.q0)), G2(p.l))), NLog(NDiv(p.q0, p.l)))))
      up(f) == IF NLe(t, 0) THEN f[1] ELSE NAdd(f[1], NMul(f[2], NPow(t, f[3])))
      down(f) == NSub(f[1], NMul(NSub(f[1], f[2]), NSub(1, NDiv(1, NAdd(1, NPow(t, f[3]))))))
      \* W^2 - M^2 + Q^2 = 2 M nu
      xi(m) == NDiv(NAdd(Q2, G2(m)), NAdd(G2(m), NMul(2, NMul(M, nu))))
      f(c, a, b, m) == NMul(c, NMul(NPow(xi(m), a), NPow(NSub(1, x), b))) IN
  NMul(NDiv(Q2, NAdd(Q2, G2(p.m0))), NAdd(f(down(p.cp), down(p.ap), up(p.bp), p.mp), f(up(p.cr), up(p.ar), up(p.br), p.mr)))
ProtonBlock(M, nu, Q2) ==
  LET x == Bjorken(M, nu, Q2)  m2 == G2("0.753")  mu == G2("2.82")  s == NLog(NAdd(1, NDiv(Q2, mu)))
      poly(a, b, c) == NAdd(a, NMul(s, NAdd(b, NMul(s, c))))
      D == NDiv(NMul(Q2, NAdd(Q2, NMul("2.430", m2))), NSq(NAdd(Q2, m2)))  w == NLog(NDiv(NDiv(Q2, x), NAdd(Q2, mu))) IN
  NMul(NMul(D, NPow(NSub(1, x), "11.49")),
       NAdd(poly("0.255", "1.475e-1", 0), NMul(w, NAdd(poly("8.205e-4", "-5.148e-2", "-4.725e-3"), NMul(w, poly("2.217e-3", "1.244e-2", "5.958e-4"))))))
\* neutron to proton
NOverP(x) == NAdd(1, NMul(x, NAdd("-1.85", NMul(x, NAdd("2.45", NMul(x, NAdd("-2.35", x)))))))
Shadow(e, x, nu) ==
  LET ws == e.t.ws  A == e.t.A IN
  IF NEq(e.t.Z, 1) THEN 1 ELSE
  CASE e.shadow = "DuttaRenoSarcevicSeckel" ->
         IF NLt(x, "0.0014") THEN NPow(A, "-0.1") ELSE IF NLt(x, "0.04") THEN NPow(A, NAdd(NMul("0.069", NDiv(NLog(x), NLog(10))), "0.097")) ELSE 1
    [] e.shadow = "ButkevichMikheyev" ->
         IF NGt(x, "0.3")
         THEN LET u == NDiv(1, NSub(1, x))  c == NDiv(1, NSub(1, "0.278")) IN
              NSub(1, NMul(NMul("0.437", ws), NMul(NSub(1, NDiv(x, 2)), NSub(NSub(u, c), NMul(NDiv(MPI, e.t.M), NSub(NSq(u), NSq(c)))))))
         ELSE LET n == NDiv(nu, 1000)  m1 == NMul("0.129", ws)  m2 == NMul("0.456", ws)  m3 == NMul("0.553", ws)
                  s == NMul("112.2", NAdd(NMul("0.609", NPow(n, "0.0988")), NMul("1.037", NPow(n, "-0.5944"))))
                  y == NMul(NMul("0.00282", Cube(A)), s)
                  low == NAdd("0.25", NMul("0.75", NMul(NDiv(3, y), NAdd("0.5", NDiv(NSub(NMul(NAdd(1, y), NExp(NNeg(y))), 1), NSq(y))))))
                  high == NMul(NMul(NPow(x, m1), NAdd(1, m2)), NSub(1, NMul(m3, x))) IN
              \* saturated below the x where the power law would fall below
              IF NLt(x, NPow(NDiv(low, NAdd(1, m2)), NDiv(1, m1))) THEN low ELSE high
Nucleus(e, nu, Q2) ==
  LET t == e.t  x == Bjorken(t.M, nu, Q2)  y == NSub(1, x)  of(p) == NMul(p, NAdd(t.Z, NMul(NSub(t.A, t.Z), NOverP(x)))) IN
  NMul(Shadow(e, x, nu),
    CASE e.name = "BlockDurandHa" -> of(ProtonBlock(t.M, nu, Q2))
      [] e.name = "ButkevichMikheyev" ->
           LET n == NMul("1.5", NAdd(1, NDiv(Q2, NAdd(Q2, G2("3.0292")))))  d == NMul("0.0988", NAdd(1, NDiv(NMul(2, Q2), NAdd(Q2, G2("1.4817")))))
               sea == NMul(NMul("0.12", NPow(x, NNeg(d))), NPow(NDiv(Q2, NAdd(Q2, G2("0.2513"))), NAdd(1, d)))
               val == NMul(NMul(NPow(x, NSub(1, "0.4056")), NPow(y, n)), NPow(NDiv(Q2, NAdd(Q2, G2("0.6186"))), "0.4056"))
               u == NMul("1.2437", val)  dn == NMul(NMul("0.1853", val), y) IN
           NAdd(NMul(t.Z, NAdd(NMul(sea, NPow(y, NAdd(n, 4))), NAdd(u, dn))),
                NMul(NSub(t.A, t.Z), NAdd(NMul(sea, NPow(y, NAdd(n, "1.8152"))), NAdd(NDiv(u, 4), NMul(4, dn)))))
      [] OTHER -> of(ProtonAllm(Allm(e.name), t.M, nu, Q2)))
\* d^2 sigma / dv dQ2 of one nucleus
OfQ2(e, v, Q2) ==
  LET M == e.t.M  x == Bjorken(M, NMul(v, e.E), Q2)  R == IF e.name = "ButkevichMikheyev" THEN "0.25" ELSE 0
      long == NDiv(NAdd(1, NDiv(NSq(NMul(2, NMul(M, x))), Q2)), NAdd(1, R))  r == NDiv(NSq(e.m), Q2)
      \* scalar particles, or particles of spin 1/2
      w == IF e.name = "RenoSarcevicSu"
           THEN NSub(NAdd(NSub(1, v), NDiv(NSq(v), 4)), NMul(NMul(NAdd(1, NMul(4, r)), NDiv(NSq(v), 4)), long))
           ELSE NAdd(NSub(NSub(1, v), NDiv(NMul(NMul(M, x), v), NMul(2, e.E))), NMul(NMul(NSub(1, NMul(2, r)), NDiv(NSq(v), 2)), long)) IN
  NMul(NMul(NMul(4, PI), NSq(NDiv(NMul(ME, RE), Q2))), NMul(NDiv(Nucleus(e, NMul(v, e.E), Q2), v), w))
\* virtualities that are possible
Q2Range(e, v) ==
  LET low == NDiv(NSq(NMul(e.m, v)), NSub(1, v))
      light == NDiv(NSq(NDiv(NSq(e.m), e.E)), NMul(2, NSub(1, v))) IN
  <<IF NLt(e.m, MPI) THEN NSub(low, light) ELSE low, NMul(NMul(2, e.t.M), NMul(e.E, NSub(v, Limits(e)[1])))>>
Q2Ds(e, v, n) ==
  LET r == Q2Range(e, v)  a == NLog(r[1])  h == NDiv(NSub(NLog(r[2]), a), n)  f(y) == LET s == NExp(y) IN NMul(s, OfQ2(e, v, s)) IN
  IF NLe(r[2], r[1]) THEN 0 ELSE
  Max0(NMul(NMul(NDiv(NAV, e.t.A), NSq(e.q)), NSum([k \in 1..8 * n |-> NMul(NMul(h, GW[1 + ((k - 1) % 8)]), f(NAdd(a, NMul(h, NAdd((k - 1) \div 8, GX[1 + ((k - 1) % 8)])))))])))
=============================================================================

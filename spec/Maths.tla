------------------------------- MODULE Maths --------------------------------
(* What root finders, polynomials, splines and sampling helpers promise,     *)
(* stated over the logged questions and answers.                             *)
EXTENDS Num, TLC, FiniteSets
Powers(x, n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE NPow(x, i - 1)]
Poly(c, x) == NDot(c, Powers(x, Len(c)))
AbsPoly(c, x) == NDot([i \in 1..Len(c) |-> NAbs(c[i])], Powers(NAbs(x), Len(c)))
Diff(c) == IF Len(c) = 1 THEN <<0>> ELSE [i \in 1..Len(c)-1 |-> NMul(c[i+1], i)]
Anti(c, k) == [i \in 1..Len(c)+1 |-> IF i = 1 THEN k ELSE NDiv(c[i-1], i - 1)]
CloseP(v, c, x, rel) == NLe(NAbs(NSub(v, Poly(c, x))), NAdd("1e-300", NMul(rel, AbsPoly(c, x))))
Sgn(v) == IF NGt(v, 0) THEN 1 ELSE IF NLt(v, 0) THEN -1 ELSE 0

Fun(e, x) == CASE e.fam = "poly" -> Poly(e.c, x)
               [] e.fam = "exp"  -> NSub(NExp(NMul(e.c[1], x)), e.c[2])
               [] e.fam = "cube" -> NAdd(NMul(e.c[1], NMul(NSub(x, e.c[2]), NMul(NSub(x, e.c[2]), NSub(x, e.c[2])))), NMul(e.c[3], NSub(x, e.c[2])))
               [] e.fam = "sin"  -> NSin(NMul(e.c[1], NSub(x, e.c[2])))
Change(e, a, b) == Sgn(Fun(e, a)) * Sgn(Fun(e, b)) <= 0
NewtonOk(e) ==
  LET s == Sgn(Fun(e, e.x1)) * Sgn(Fun(e, e.x2))
      d == NAdd(NMul(4, e.xacc), NMul("1e-13", NAdd(1, NAbs(e.r)))) IN
  IF s > 0 THEN e.err # "" ELSE
     /\ e.err = ""
     /\ NLe(NMin(e.x1, e.x2), NAdd(e.r, d)) /\ NLe(e.r, NAdd(NMax(e.x1, e.x2), d))
     /\ Change(e, NSub(e.r, d), NAdd(e.r, d))
BisectOk(e) ==
  IF Sgn(Fun(e, e.x1)) * Sgn(Fun(e, e.x2)) > 0 THEN e.err # "" ELSE
     /\ e.err = ""
     /\ NLe(e.r[1], e.r[2])
     /\ NLe(NMin(e.x1, e.x2), e.r[1]) /\ NLe(e.r[2], NMax(e.x1, e.x2))
     /\ NLt(NSub(e.r[2], e.r[1]), e.xacc)
     /\ Change(e, e.r[1], e.r[2])

PolyOk(e) ==
  /\ e.coeff = e.c
  /\ CloseP(e.v, e.c, e.x, "1e-12")
  /\ NEq(e.fv, e.v)                                    \* the function object
  /\ CloseP(e.dv, Diff(e.c), e.x, "1e-12")
  /\ CloseP(e.av, Anti(e.c, e.k), e.x, "1e-12")
  /\ LET xs == NAdd(e.x, e.s) IN                        \* p shifted by s, at x, is p at x+s
       NLe(NAbs(NSub(e.sv, Poly(e.c, xs))), NMul("1e-10", NAdd("1e-290", AbsPoly(e.c, NAdd(NAbs(e.x), NAbs(e.s))))))
  /\ NEq(e.again, e.v)                                  \* taking these left p alone
  /\ e.eq /\ (e.eqd <=> (Len(e.c) = Len(Diff(e.c)) /\ \A i \in 1..Len(e.c) : NEq(e.c[i], Diff(e.c)[i])))

\* splines: segs[i] are the coefficients on [x[i], x[i+1]]
Continuous(e, segs, k, rel) ==                          \* k-th derivative across the nodes
  LET D[j \in 0..k] == IF j = 0 THEN segs ELSE [i \in 1..Len(segs) |-> Diff(D[j-1][i])] IN
  \A i \in 1..Len(segs)-1 :
     LET a == D[k][i] b == D[k][i+1] x == e.x[i+1] IN
     NLe(NAbs(NSub(Poly(a, x), Poly(b, x))), NMul(rel, NAdd(AbsPoly(a, x), AbsPoly(b, x))))
Segment(e, x) ==                                        \* indices of the segments that hold x
  {i \in 1..Len(e.x)-1 : (i = 1 \/ NLe(e.x[i], x)) /\ (i = Len(e.x)-1 \/ NLe(x, e.x[i+1]))}
EvalOk(e, segs, qs, rel) ==
  \A q \in 1..Len(qs) : \E i \in Segment(e, qs[q][1]) : CloseP(qs[q][2], segs[i], qs[q][1], rel)
SplineOk(e) ==
  LET n == Len(e.x) IN
  /\ Len(e.segs) = n - 1 /\ e.n = n - 1
  /\ e.domain = << e.x[1], e.x[n] >> /\ e.sub = e.x
  /\ \A i \in 1..n-1 : /\ Len(e.segs[i]) = (IF e.kind = "cubic" THEN 4 ELSE 2)
                       /\ CloseP(e.y[i], e.segs[i], e.x[i], "1e-9")
                       /\ CloseP(e.y[i+1], e.segs[i], e.x[i+1], "1e-9")
  /\ (e.kind = "cubic") =>
       /\ Continuous(e, e.segs, 1, "1e-8") /\ Continuous(e, e.segs, 2, "1e-8")
       /\ LET a == Diff(Diff(e.segs[1])) b == Diff(Diff(e.segs[n-1])) IN   \* natural ends
            /\ NLe(NAbs(Poly(a, e.x[1])), NMul("1e-8", AbsPoly(a, e.x[1])))
            /\ NLe(NAbs(Poly(b, e.x[n])), NMul("1e-8", AbsPoly(b, e.x[n])))
  /\ EvalOk(e, e.segs, e.vs, "1e-12")
  /\ Len(e.dsegs) = n - 1
  /\ \A i \in 1..n-1 : Len(e.dsegs[i]) = Len(e.segs[i]) - 1
                       /\ \A j \in 1..Len(e.dsegs[i]) : NClose(e.dsegs[i][j], Diff(e.segs[i])[j], "1e-13", 0)
  /\ EvalOk(e, e.dsegs, e.dvs, "1e-12")
  /\ \A i \in 1..n-1 : /\ Len(e.asegs[i]) = Len(e.segs[i]) + 1
                       /\ \A j \in 1..Len(e.segs[i]) : NClose(Diff(e.asegs[i])[j], e.segs[i][j], "1e-13", 0)
  /\ Continuous(e, e.asegs, 0, "1e-11")
  /\ NLe(NAbs(NSub(Poly(e.asegs[1], e.x[1]), e.k)), NMul("1e-12", AbsPoly(e.asegs[1], e.x[1])))
  /\ EvalOk(e, e.asegs, e.avs, "1e-12")

\* coefficients of CalculateSpline count from the beginning of their interval
CoeffOk(e) ==
  LET n == Len(e.x) h(i) == NSub(e.x[i+1], e.x[i]) IN
  /\ Len(e.t) = n - 1
  /\ \A i \in 1..n-1 : /\ e.t[i] = e.x[i] /\ CloseP(e.y[i], e.segs[i], 0, "1e-12") /\ CloseP(e.y[i+1], e.segs[i], h(i), "1e-10")
                       /\ i < n - 1 =>
                            /\ LET d == Diff(e.segs[i]) f == Diff(e.segs[i+1]) IN NLe(NAbs(NSub(Poly(d, h(i)), Poly(f, 0))), NMul("1e-9", NAdd(AbsPoly(d, h(i)), AbsPoly(f, 0))))
                            /\ LET d == Diff(Diff(e.segs[i])) f == Diff(Diff(e.segs[i+1])) IN NLe(NAbs(NSub(Poly(d, h(i)), Poly(f, 0))), NMul("1e-9", NAdd("1e-290", NAdd(AbsPoly(d, h(i)), AbsPoly(f, 0)))))
  /\ NEq(e.segs[1][3], 0)
  /\ LET d == Diff(Diff(e.segs[n-1])) IN NLe(NAbs(Poly(d, h(n-1))), NAdd("1e-290", NMul("1e-9", AbsPoly(d, h(n-1)))))

\* distribution functions
Phi(z) == NMul("0.5", NErfc(NNeg(NDiv(z, NSqrt(2)))))
PhiC(z) == NMul("0.5", NErfc(NDiv(z, NSqrt(2))))
Dens(z) == NMul("0.3989422804014327", NExp(NMul("-0.5", NMul(z, z))))
PpfOk(e) == /\ NLe(NAbs(NSub(Phi(e.r), e.p)), NAdd("1e-20", NMul("1e-13", e.p)))
            /\ NLe(NAbs(NSub(PhiC(e.r), NSub(1, e.p))), NAdd("1e-20", NMul("1e-13", NSub(1, e.p)))) \/ NGt(e.p, "0.999")
GaussOk(e) ==
  IF NEq(e.sigma, 0) THEN NEq(e.r, e.mean) ELSE
  LET z(v) == NDiv(NSub(v, e.mean), e.sigma)
      lo == Phi(z(e.min)) hi == Phi(z(e.max)) IN
  /\ NLe(NSub(e.min, NMul("1e-7", e.sigma)), e.r) /\ NLe(e.r, NAdd(e.max, NMul("1e-7", e.sigma)))
  /\ NLe(NAbs(NSub(Phi(z(e.r)), NAdd(lo, NMul(NSub(hi, lo), e.rnd)))), NAdd("1e-13", NMul("1e-15", NAbs(NDiv(e.mean, e.sigma)))))
ExpoOk(e) == /\ NGe(e.r, 0)
             /\ NClose(NMul(e.lambda, e.r), e.want, "1e-14", "1e-300")
             /\ NClose(NSub(1, NExp(NNeg(NMul(e.lambda, e.r)))), e.p, "1e-10", "1e-14")

\* dilogarithm: its series for |x| <= 1/2, elsewhere by the functional equations
Pi2 == "9.869604401089358"
Series(x) == NSum([k \in 1..50 |-> NDiv(NPow(x, k), k * k)])
LnS(x) == NLog(NAbs(x))
Li2(x) ==
  CASE NLe(NAbs(x), "0.5") -> Series(x)
    [] NEq(x, 1) -> NDiv(Pi2, 6)
    [] NEq(x, -1) -> NDiv(Pi2, -12)
    [] NGt(x, "0.5") /\ NLe(x, "1.5") -> NSub(NSub(NDiv(Pi2, 6), NMul(LnS(x), LnS(NSub(1, x)))), Series(NSub(1, x)))
    [] NGt(x, "1.5") /\ NLt(x, 2) ->   \* inversion, then reflection
         LET y == NDiv(1, x) IN
         NSub(NSub(NDiv(Pi2, 3), NMul("0.5", NSq(NLog(x)))),
              NSub(NSub(NDiv(Pi2, 6), NMul(LnS(y), LnS(NSub(1, y)))), Series(NSub(1, y))))
    [] NGe(x, 2) -> NSub(NSub(NDiv(Pi2, 3), NMul("0.5", NSq(NLog(x)))), Series(NDiv(1, x)))
    [] NLt(x, "-0.5") /\ NGe(x, -1) -> \* Landen
         LET y == NDiv(x, NSub(x, 1)) IN NSub(NMul("-0.5", NSq(NLog(NSub(1, x)))), Series(y))
    [] OTHER -> LET w == NDiv(1, x)    \* x < -1: inversion, then Landen
                    y == NDiv(w, NSub(w, 1)) IN
         NSub(NSub(NDiv(Pi2, -6), NMul("0.5", NSq(NLog(NNeg(x))))), NSub(NMul("-0.5", NSq(NLog(NSub(1, w)))), Series(y)))
DilogOk(e) == NClose(e.r, Li2(e.x), "1e-13", "2e-14")

\* running mean and variance
WelfordOk(e) ==
  LET n == Len(e.vs)
      m == NDiv(NSum(e.vs), n)
      v == NDiv(NSum([i \in 1..n |-> NSq(NSub(e.vs[i], m))]), n)
      s == NMax(NAbs(m), NSqrt(v)) IN
  /\ NLe(NAbs(NSub(e.mean, m)), NMul("1e-12", NAdd("1e-300", NDiv(NSum([i \in 1..n |-> NAbs(e.vs[i])]), n))))
  /\ NLe(NAbs(NSub(e.var, v)), NMul("1e-10", NAdd("1e-300", NSq(s))))
  /\ NEq(e.m0, e.m1) /\ e.it0 = e.it1                    \* the arguments are not changed
=============================================================================

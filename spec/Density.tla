------------------------------ MODULE Density ------------------------------
(***************************************************************************)
(* Mass density distributions along rays.                                  *)
(*                                                                         *)
(* A distribution is a record [kind, axis, p0, a, m, ...]: its local       *)
(* density is the base density m times a profile of the depth, the depth   *)
(* being the component along the axis (cartesian) or the distance from     *)
(* (radial) the reference point.                                           *)
(*                                                                         *)
(* Calculate(x, d, l) must be the integral of the local density over the   *)
(* ray from x to x + l d, Correct its inverse in l.                        *)
(***************************************************************************)
EXTENDS Num

Depth(g, x) == IF g.axis = "radial" THEN VNorm(VSub(x, g.p0)) ELSE NDot(g.a, VSub(x, g.p0))
Delta(g, x, d) == IF g.axis = "radial" THEN LET q == VSub(x, g.p0) IN IF NEq(VNorm(q), 0) THEN 1 ELSE NDiv(NDot(q, d), VNorm(q)) ELSE NDot(g.a, d)

RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i > Len(c) THEN 0 ELSE NAdd(c[i], NMul(x, Horner(c, x, i + 1)))
RECURSIVE HornerAbs(_, _, _)
HornerAbs(c, x, i) == IF i > Len(c) THEN 0 ELSE NAdd(NAbs(c[i]), NMul(NAbs(x), HornerAbs(c, x, i + 1)))

RECURSIVE Bin(_, _, _)
Bin(xs, x, i) == IF i >= Len(xs) - 1 \/ NLe(x, xs[i + 1]) THEN i ELSE Bin(xs, x, i + 1)

Linear(xs, ys, x) ==
  LET i == Bin(xs, x, 1)
      t == NDiv(NSub(x, xs[i]), NSub(xs[i + 1], xs[i]))
  IN NAdd(ys[i], NMul(t, NSub(ys[i + 1], ys[i])))

\* cubic splines are characterised in Functions.tla; here only at their points
Known(g, s) == g.kind # "cubic" \/ \E i \in 1..Len(g.xs) : NEq(g.xs[i], s)
Profile(g, s) ==
  CASE g.kind = "homogeneous" -> 1
    [] g.kind = "exponential" -> NExp(NDiv(NSub(s, g.d0), g.sigma))
    [] g.kind = "polynomial"  -> Horner(g.c, s, 1)
    [] g.kind = "linear"      -> Linear(g.xs, g.ys, s)
    [] g.kind = "cubic"       -> g.ys[CHOOSE i \in 1..Len(g.xs) : NEq(g.xs[i], s)]

Local(g, x) == NMul(g.m, Profile(g, Depth(g, x)))

(* how well the profile is conditioned (cancellation between the terms) *)
LocalScale(g, x) ==
  CASE g.kind = "polynomial" -> NMul(g.m, HornerAbs(g.c, Depth(g, x), 1))
    [] OTHER -> NAbs(Local(g, x))

LocalOk(e) == Known(e.g, Depth(e.g, e.p)) =>
   NClose(e.rho, Local(e.g, e.p), "1e-9", NMul("1e-11", LocalScale(e.g, e.p)))

(* Gauss-Legendre weights (8 points on [0,1]) *)
W == <<"0.05061426814518813", "0.11119051722668724", "0.15685332293894364", "0.18134189168918100",
       "0.18134189168918100", "0.15685332293894364", "0.11119051722668724", "0.05061426814518813">>
RECURSIVE Quad8(_, _)
Quad8(sub, i) == IF i > Len(sub) THEN 0 ELSE NAdd(NMul(sub[i].len, NDot(W, sub[i].rho)), Quad8(sub, i + 1))

(* exact integrals where there are closed forms *)
RECURSIVE Anti(_, _)
Anti(c, i) == IF i > Len(c) THEN <<>> ELSE <<NDiv(c[i], i)>> \o Anti(c, i + 1)
ExactKnown(g) == g.kind \in {"homogeneous", "exponential"}
Exact(e) ==
  CASE e.g.kind = "homogeneous" -> NMul(e.g.m, e.l)
    [] e.g.kind = "exponential" ->
         LET k == NDiv(Delta(e.g, e.p, e.d), e.g.sigma)
             r == Local(e.g, e.p)
         IN IF NLe(NAbs(NMul(k, e.l)), "1e-7") THEN NMul(r, NMul(e.l, NAdd(1, NMul("0.5", NMul(k, e.l)))))
            ELSE NDiv(NMul(r, NSub(NExp(NMul(k, e.l)), 1)), k)

Slack(e) == NAdd(NMul("1e-11", e.cond), "1e-250")

GrammageOk(e) ==
  LET want == Quad8(e.sub, 1) IN
  /\ NClose(e.calc, want, "1e-8", Slack(e))
  /\ ExactKnown(e.g) => NClose(e.calc, Exact(e), "1e-8", Slack(e))
  /\ NClose(e.zero, 0, 0, Slack(e))
  /\ NClose(NAdd(e.part1, e.part2), e.calc, "1e-8", Slack(e))
  /\ NLe(e.part1, NAdd(e.calc, NAdd(Slack(e), NMul("1e-9", e.calc))))
  /\ LocalOk(e)

(* inversion: slope is the largest local density on the ray *)
Precision == "2e-6" \* of the root search, in cm
CorrectOk(e) ==
  LET tol == NAdd(NMul("1e-8", e.res), NAdd(Slack(e), IF e.g.kind \in {"homogeneous", "exponential"} THEN 0 ELSE NMul(Precision, e.slope))) IN
  IF e.thrown = ""
  THEN /\ NGe(e.dist, 0)
       /\ NFinite(e.dist)
       /\ NClose(e.back, e.res, 0, tol)
       /\ e.g.kind \in {"homogeneous", "exponential"} \/ NLe(e.dist, NMul(e.max, "1.000000001"))
  ELSE NLe(e.total, NAdd(e.res, tol))  \* grammage up to the maximal distance
=============================================================================

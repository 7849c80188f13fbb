------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* What a geometry answers about a ray.                                    *)
(*                                                                         *)
(* A solid is a set of points; along the ray position + t*direction it is  *)
(* a finite union of open intervals, the STRETCHES of material.  The       *)
(* answers of the library are functions of the stretches alone:            *)
(*    inside (or on the border, moving in)   <<end of this stretch, -1>>   *)
(*    material only further along the ray    <<begin, end>> of the next    *)
(*    otherwise                              <<-1, -1>>                    *)
(* Solids: box; cylinder and sphere, each possibly hollow.                 *)
(*                                                                         *)
(* Shapes are records [kind, c (centre), ...]; lengths and coordinates are *)
(* numbers of module Num.                                                  *)
(***************************************************************************)
EXTENDS Num, FiniteSets

Inf == "inf"
MInf == "-inf"

(* An interval <<lo, hi>>; empty iff lo >= hi. *)
Whole == <<MInf, Inf>>
Nothing == <<Inf, MInf>>
Meet(a, b) == <<NMax(a[1], b[1]), NMin(a[2], b[2])>>
Length(a) == NSub(a[2], a[1])

(* {t : lo < p + t*d < hi} *)
Slab(p, d, lo, hi) ==
  IF NEq(d, 0) THEN (IF NLt(lo, p) /\ NLt(p, hi) THEN Whole ELSE Nothing)
  ELSE LET a == NDiv(NSub(lo, p), d)
           b == NDiv(NSub(hi, p), d)
       IN <<NMin(a, b), NMax(a, b)>>

(* {t : a t^2 + 2 b t + c < 0}, a >= 0 *)
Quad(a, b, c) ==
  IF NEq(a, 0) THEN (IF NLt(c, 0) THEN Whole ELSE Nothing)
  ELSE LET D == NSub(NMul(b, b), NMul(a, c))
       IN IF NLe(D, 0) THEN Nothing
          ELSE LET s == NSqrt(D)
               IN <<NDiv(NSub(NNeg(b), s), a), NDiv(NAdd(NNeg(b), s), a)>>

Half(x) == NMul("0.5", x)

BoxRange(g, p, d) ==
  Meet(Meet(Slab(p[1], d[1], NSub(g.c[1], Half(g.x)), NAdd(g.c[1], Half(g.x))),
            Slab(p[2], d[2], NSub(g.c[2], Half(g.y)), NAdd(g.c[2], Half(g.y)))),
       Slab(p[3], d[3], NSub(g.c[3], Half(g.z)), NAdd(g.c[3], Half(g.z))))

BallRange(r, p, d) == Quad(NDot(d, d), NDot(p, d), NSub(NDot(p, p), NMul(r, r)))

BarrelRange(r, p, d) ==
  Quad(NAdd(NMul(d[1], d[1]), NMul(d[2], d[2])),
       NAdd(NMul(p[1], d[1]), NMul(p[2], d[2])),
       NSub(NAdd(NMul(p[1], p[1]), NMul(p[2], p[2])), NMul(r, r)))

(* The two ranges whose difference the solid is: <<outer, hole>>. *)
Ranges(g, p, d) ==
  LET q == VSub(p, g.c) IN
  CASE g.kind = "box"      -> <<BoxRange(g, p, d), Nothing>>
    [] g.kind = "sphere"   -> <<BallRange(g.ro, q, d),
                                IF NGt(g.ri, 0) THEN BallRange(g.ri, q, d) ELSE Nothing>>
    [] g.kind = "cylinder" -> <<Meet(BarrelRange(g.ro, q, d), Slab(q[3], d[3], NNeg(Half(g.z)), Half(g.z))),
                                IF NGt(g.ri, 0) THEN BarrelRange(g.ri, q, d) ELSE Nothing>>

(* Stretches longer than eps, in order along the ray. *)
Stretches(g, p, d, eps) ==
  LET r == Ranges(g, p, d)
      o == r[1]
      h == r[2]
      long(i) == NGt(Length(i), eps)
      parts == IF long(o) /\ NLt(h[1], h[2]) /\ NLt(h[1], o[2]) /\ NLt(o[1], h[2])
               THEN <<<<o[1], NMin(o[2], h[1])>>, <<NMax(o[1], h[2]), o[2]>>>>
               ELSE <<o>>
  IN SelectSeq(parts, long)

(* The answer: pos(t) decides whether a border at t lies ahead. *)
Answer(s, eps) ==
  LET ahead == SelectSeq(s, LAMBDA i : NGt(i[2], eps))
  IN IF ahead = <<>> THEN <<-1, -1>>
     ELSE IF NGt(ahead[1][1], eps) THEN ahead[1]
     ELSE <<ahead[1][2], -1>>

Classify(a) == IF NLt(a[1], 0) THEN "behind" ELSE IF NLt(a[2], 0) THEN "inside" ELSE "infront"

(***************************************************************************)
(* Conformance of a logged pair `got`.  Exact up to rounding, except where  *)
(* the ray is degenerate: it touches (chord or gap shorter than the width   *)
(* `w`) or has a border nearer than w but not within w/1000 of the start.   *)
(* Then any answer is accepted which is right for one of the two readings.  *)
(***************************************************************************)
Tol(scale) == NMul("1e-9", scale)

SamePair(got, want, scale) ==
  /\ IF NLt(want[1], 0) THEN NEq(got[1], -1) ELSE NClose(got[1], want[1], "1e-9", Tol(scale))
  /\ IF NLt(want[2], 0) THEN NEq(got[2], -1) ELSE NClose(got[2], want[2], "1e-9", Tol(scale))

(* Readings of a possibly degenerate ray: sequence of stretches kept/merged. *)
Merge(s, w) == \* gaps narrower than w closed
  IF Len(s) = 2 /\ NLe(NSub(s[2][1], s[1][2]), w) THEN <<<<s[1][1], s[2][2]>>>> ELSE s

(* a border line of the solid contains the ray: unspecified *)
RunsInBorder(g, p, d, w) ==
  LET q == VSub(p, g.c)
      near(a, b) == NClose(a, b, 0, w)
      rho == NSqrt(NAdd(NMul(q[1], q[1]), NMul(q[2], q[2])))
      flat(i) == NLe(NAbs(d[i]), "1e-12")
  IN CASE g.kind = "box" -> \E i \in 1..3 : flat(i) /\ near(NAbs(q[i]), Half(IF i = 1 THEN g.x ELSE IF i = 2 THEN g.y ELSE g.z))
       [] g.kind = "cylinder" -> \/ flat(3) /\ near(NAbs(q[3]), Half(g.z))
                                 \/ flat(1) /\ flat(2) /\ (near(rho, g.ro) \/ near(rho, g.ri))
       [] OTHER -> FALSE

(* tangent to a curved border (within w in t, i.e. chord or imaginary chord) *)
Tangent(g, p, d, w) ==
  LET q == VSub(p, g.c)
      disc(a, b, c) == NSub(NMul(b, b), NMul(a, c))
      ball(r) == disc(NDot(d, d), NDot(q, d), NSub(NDot(q, q), NMul(r, r)))
      bar(r) == LET a == NAdd(NMul(d[1], d[1]), NMul(d[2], d[2]))
                IN IF NLe(a, "1e-20") THEN 1
                   ELSE NDiv(disc(a, NAdd(NMul(q[1], d[1]), NMul(q[2], d[2])),
                           NSub(NAdd(NMul(q[1], q[1]), NMul(q[2], q[2])), NMul(r, r))), NMul(a, a))
      tiny(D) == NLe(NAbs(D), NMul(w, w))
  IN CASE g.kind = "sphere" -> tiny(ball(g.ro)) \/ (NGt(g.ri, 0) /\ tiny(ball(g.ri)))
       [] g.kind = "cylinder" -> tiny(bar(g.ro)) \/ (NGt(g.ri, 0) /\ tiny(bar(g.ri)))
       [] OTHER -> FALSE

(* all border parameters that matter *)
Ends(s) == UNION {{s[i][1], s[i][2]} : i \in 1..Len(s)}
NearStart(s, w) == \E e \in Ends(s) : NLe(NAbs(e), w) /\ ~NLe(NAbs(e), NMul(w, "1e-4"))

Degenerate(g, p, d, w) ==
  LET s == Stretches(g, p, d, 0) IN
  \/ RunsInBorder(g, p, d, w)
  \/ Tangent(g, p, d, w)
  \/ \E i \in 1..Len(s) : NLe(Length(s[i]), w)
  \/ Len(s) = 2 /\ NLe(NSub(s[2][1], s[1][2]), w)
  \/ NearStart(s, w)
  \/ (g.kind = "box" \/ g.kind = "cylinder") /\ LET o == Ranges(g, p, d)[1] IN NLe(NAbs(Length(o)), w)

WellFormed(a) == \/ NEq(a[1], -1) /\ NEq(a[2], -1)
                 \/ NGt(a[1], 0) /\ NEq(a[2], -1)
                 \/ NGt(a[1], 0) /\ NLe(a[1], a[2])

(* within tol of the solid (holes not counted) *)
Near(g, x, tol) ==
  LET q == VSub(x, g.c)
      in(a, b) == NLe(NAbs(a), NAdd(b, tol))
  IN CASE g.kind = "box" -> in(q[1], Half(g.x)) /\ in(q[2], Half(g.y)) /\ in(q[3], Half(g.z))
       [] g.kind = "sphere" -> NLe(VNorm(q), NAdd(g.ro, tol))
       [] OTHER -> in(q[3], Half(g.z)) /\ NLe(NSqrt(NAdd(NSq(q[1]), NSq(q[2]))), NAdd(g.ro, tol))
(* what is claimed to be material is at least close to it *)
Plausible(g, p, d, a, tol) ==
  CASE Classify(a) = "inside" -> Near(g, p, tol) /\ Near(g, VAdd(p, VScale(a[1], d)), tol)
    [] Classify(a) = "infront" -> Near(g, VAdd(p, VScale(a[1], d)), tol) /\ Near(g, VAdd(p, VScale(a[2], d)), tol)
    [] OTHER -> TRUE

RayOk(g, p, d, got, scale, w) ==
  IF Degenerate(g, p, d, w) THEN WellFormed(got) /\ Plausible(g, p, d, got, NMul(2, w))
  ELSE SamePair(got, Answer(Stretches(g, p, d, 0), Tol(scale)), scale)
=============================================================================

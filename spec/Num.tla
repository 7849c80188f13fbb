-------------------------------- MODULE Num --------------------------------
(* IEEE-754 double arithmetic for specifications that TLC evaluates against *)
(* traces.  The operators are constants of the specification language here;  *)
(* harness/java/Num.java gives TLC their meaning (plain Java doubles).  A    *)
(* number is an Int, a decimal literal in a string (that is how drivers log  *)
(* doubles, because TLC integers have 32 bits), or the result of one of      *)
(* these operators.                                                          *)
EXTENDS Integers, Sequences
LOCAL Undef == CHOOSE x \in {0} : TRUE
NF(a) == Undef              \* canonical form
NAdd(a, b) == Undef
NSub(a, b) == Undef
NMul(a, b) == Undef
NDiv(a, b) == Undef
NPow(a, b) == Undef
NNeg(a) == Undef
NAbs(a) == Undef
NSqrt(a) == Undef
NExp(a) == Undef
NLog(a) == Undef
NSin(a) == Undef
NCos(a) == Undef
NAtan2(a, b) == Undef
NAcos(a) == Undef
NErf(a) == Undef
NErfc(a) == Undef
NLi2(a) == Undef            \* dilogarithm of 0 <= a <= 1
NFloor(a) == Undef          \* an Int
NMin(a, b) == Undef
NMax(a, b) == Undef
NLt(a, b) == Undef          \* booleans
NLe(a, b) == Undef
NEq(a, b) == Undef
NSame(a, b) == Undef        \* equal, or both NaN
NIsNaN(a) == Undef
NFinite(a) == Undef
NClose(a, b, rel, abs) == Undef   \* |a-b| <= abs + rel*max(|a|,|b|)
NSum(s) == Undef            \* sum of a sequence
NDot(s, t) == Undef         \* scalar product of two sequences
SLower(s) == Undef          \* a string in lower case
NStr(a) == Undef            \* printable
-----------------------------------------------------------------------------
NGt(a, b) == NLt(b, a)
NGe(a, b) == NLe(b, a)
NSq(a) == NMul(a, a)
VAdd(u, v) == <<NAdd(u[1], v[1]), NAdd(u[2], v[2]), NAdd(u[3], v[3])>>
VSub(u, v) == <<NSub(u[1], v[1]), NSub(u[2], v[2]), NSub(u[3], v[3])>>
VScale(c, v) == <<NMul(c, v[1]), NMul(c, v[2]), NMul(c, v[3])>>
VNorm(v) == NSqrt(NDot(v, v))
VClose(u, v, rel, abs) == \A i \in 1..3 : NClose(u[i], v[i], rel, abs)
VEq(u, v) == \A i \in 1..3 : NEq(u[i], v[i])
VCross(u, v) == << NSub(NMul(u[2], v[3]), NMul(u[3], v[2])),
                   NSub(NMul(u[3], v[1]), NMul(u[1], v[3])),
                   NSub(NMul(u[1], v[2]), NMul(u[2], v[1])) >>
\* a unit vector turned by a polar angle (its cosine c) and an azimuth angle
VDeflect(v, c, theta) ==
  LET s == NSqrt(NMax(0, NMul(NSub(1, c), NAdd(1, c))))  az == NAtan2(v[2], v[1])
      et == << NMul(v[3], NCos(az)), NMul(v[3], NSin(az)), NNeg(NSqrt(NAdd(NSq(v[1]), NSq(v[2])))) >>    \* towards growing zenith
      ep == << NNeg(NSin(az)), NCos(az), 0 >> IN                                                        \* towards growing azimuth
  VAdd(VScale(c, v), VAdd(VScale(NMul(s, NCos(theta)), et), VScale(NMul(s, NSin(theta)), ep)))
=============================================================================

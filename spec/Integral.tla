------------------------------ MODULE Integral ------------------------------
(* An integration object as its user sees it: every call is answered from    *)
(* its own arguments; the only memory is the last request with a ratio,      *)
(* which GetUpperLimit answers.  Integrands come from families with known    *)
(* antiderivatives, so every answer can be judged.                           *)
(* A call: [min, max, fam, par, method, pos]; a request adds ratio.          *)
EXTENDS Num, TLC

None == [kind |-> "none"]

Fn(c, x) ==
  CASE c.fam = "pow" -> NMul(c.par[1], NPow(x, c.par[2]))
    [] c.fam = "exp" -> NMul(c.par[1], NExp(NMul(c.par[2], x)))
    [] c.fam = "sin" -> NMul(c.par[1], NSin(NMul(c.par[2], x)))
    [] c.fam = "lin" -> NAdd(c.par[1], NMul(c.par[2], x))

AD(c, x) ==                 \* antiderivative, also at infinity where it has a limit
  CASE c.fam = "pow" -> IF NEq(c.par[2], -1) THEN NMul(c.par[1], NLog(x))
                        ELSE IF ~NFinite(x) THEN 0
                        ELSE NDiv(NMul(c.par[1], NPow(x, NAdd(c.par[2], 1))), NAdd(c.par[2], 1))
    [] c.fam = "exp" -> IF ~NFinite(x) THEN 0 ELSE NDiv(Fn(c, x), c.par[2])
    [] c.fam = "sin" -> NNeg(NDiv(NMul(c.par[1], NCos(NMul(c.par[2], x))), c.par[2]))
    [] c.fam = "lin" -> NAdd(NMul(c.par[1], x), NDiv(NMul(c.par[2], NMul(x, x)), 2))

\* limits on the wrong side of a substitution stand for infinity
Limit(c, x) ==
  CASE c.method = 3 /\ NGt(c.pos, 0) /\ NLe(x, 0) -> "inf"
    [] c.method = 3 /\ NLt(c.pos, 0) /\ NGe(x, 0) -> "-inf"
    [] c.method = 5 /\ NGt(c.pos, 0) /\ NLe(x, 1) -> "inf"
    [] OTHER -> x
Lo(c) == Limit(c, c.min)
Hi(c) == Limit(c, c.max)
Whole(c) == IF NEq(Lo(c), Hi(c)) THEN 0 ELSE NSub(AD(c, Hi(c)), AD(c, Lo(c)))

\* the sine is the only family that changes its sign
Scale(c) == IF c.fam = "sin" THEN NAbs(NMul(c.par[1], NSub(c.max, c.min)))
            ELSE IF c.fam = "lin" THEN NMul(NAbs(NSub(c.max, c.min)), NMax(NAbs(Fn(c, c.min)), NAbs(Fn(c, c.max))))
            ELSE NAbs(Whole(c))

ValueOk(c, prec, r) ==
  IF NEq(Lo(c), Hi(c)) THEN NEq(r, 0)
  ELSE NLe(NAbs(NSub(r, Whole(c))), NMul(NMul(100, prec), Scale(c)))

\* the fraction of the integral asked for
Portion(c) ==
  IF NGe(c.ratio, 0) THEN NMul(NMin(c.ratio, 1), Whole(c))
  ELSE IF NGe(Whole(c), 0) THEN NMin(NNeg(c.ratio), Whole(c))
       ELSE NNeg(NMin(NNeg(c.ratio), NNeg(Whole(c))))

Jacobian(c, u) ==           \* step of x for a step in the variable of integration
  CASE c.method = 4 -> NAbs(u)
    [] c.method = 3 /\ ~NEq(c.pos, 0) -> NMul(NAbs(c.pos), NPow(NAbs(u), NAdd(1, NDiv(1, NAbs(c.pos)))))
    [] OTHER -> 1

Between(u, a, b) == LET e == NMul("1e-9", NAdd(NAbs(a), NAbs(b)))
                        lo == NMin(a, b) hi == NMax(a, b) IN
  IF NFinite(a) /\ NFinite(b) THEN NLe(NSub(lo, e), u) /\ NLe(u, NAdd(hi, e)) ELSE NLe(lo, u) /\ NLe(u, hi)

UpperOk(c, prec, u) ==
  IF c.kind = "none" THEN NEq(u, 0)                     \* nothing was asked for
  ELSE IF NEq(Lo(c), Hi(c)) THEN NClose(u, c.min, "1e-12", 0)
  ELSE /\ Between(u, Lo(c), Hi(c))
       /\ IF NEq(c.ratio, 0) THEN NClose(u, Lo(c), "1e-9", "1e-12") \/ ~NFinite(Lo(c))
          ELSE IF NGe(c.ratio, 1) THEN NClose(u, Hi(c), "1e-9", "1e-12") \/ ~NFinite(Hi(c))
          ELSE NLe(NAbs(NSub(NSub(AD(c, u), AD(c, Lo(c))), Portion(c))),
                   NAdd(NMul(NMul(200, prec), Scale(c)),
                        NMul(NMul(NMul(20, prec), Jacobian(c, u)), NAbs(Fn(c, u)))))

(* the object's behaviour: st maps an object to the request it remembers *)
Set(st, o, v) == [x \in DOMAIN st \cup {o} |-> IF x = o THEN v ELSE st[x]]
Step(st, e) ==
  CASE e.e = "new"  -> { Set(st, e.o, [req |-> None, prec |-> e.prec]) }
    [] e.e = "int"  -> IF ValueOk(e.c, st[e.o].prec, e.r) /\ NEq(e.r, e.fresh)
                       THEN { Set(st, e.o, [st[e.o] EXCEPT !.req = None]) } ELSE {}
    [] e.e = "rat"  -> IF ValueOk(e.c, st[e.o].prec, e.r) /\ NEq(e.r, e.fresh)
                       THEN { Set(st, e.o, [st[e.o] EXCEPT !.req = e.c]) } ELSE {}
    [] e.e = "up"   -> IF UpperOk(st[e.o].req, st[e.o].prec, e.r) THEN { st } ELSE {}
    [] e.e = "copy" -> { Set(st, e.to, st[e.o]) }
    [] OTHER -> {}
=============================================================================

-------------------------- MODULE SecondariesTrace --------------------------
EXTENDS TraceBase, Secondaries
VARIABLE l
vars == l
TraceInit == l = 1
(* --------------------------------------------------------------- products *)
Energies(e) == [i \in 1..Len(e.out) |-> e.out[i].E]
EnergyOk(e) ==
  LET En == Energies(e)  fx == Fixed(e)  n == Len(En) IN
  /\ Must("sum", NClose(NSum(En), Available(e), "1e-12", 0))
  /\ Must("fixed", \A i \in 1..Len(fx) : NClose(En[i], fx[i], 0, NMul("1e-14", e.E)))
  /\ Must("rest energy", \A i \in 1..n : e.out[i].type = HADRON \/ NLe(Mass(e, e.out[i].type), NAdd(En[i], NMul("1e-12", e.E))))
  /\ IF e.kind \in {"epair", "mupair"} THEN Must("side", NEq(En[2], En[3]) \/ (NLt(En[2], En[3]) = NLt(e.rnd[2], "0.5"))) ELSE TRUE
  /\ IF Shared(e) THEN Must("within limits", Len(e.part) = 2) /\ LET f == Fraction(e) IN ~NFinite(f) \/ Must(<<"share", NStr(f), e.rnd[1]>>, NClose(f, e.rnd[1], 0, IF e.kind \in {"epair", "mupair"} THEN "3e-2" ELSE "1e-1")) ELSE TRUE
  /\ IF e.kind = "annihilation" THEN LET rho == NDiv(En[2], NAdd(e.E, ME))  f == Annihilated(e, rho) IN
       /\ Must(<<"share", NStr(f), e.rnd[1]>>, NClose(f, e.rnd[1], 0, "1e-4")) ELSE TRUE
\* angles smaller than this are lost in the cosine
Direction(e, i, a, En) ==
  LET d == e.out[i].dir  c == IF a[1] = "any" THEN NDot(d, e.dir) ELSE a[2]
      lost == NSqrt(NMul("4e-15", NDiv(NMul(NAdd(e.E, ME), NAdd(e.E, ME)), NMul(NMax("1e-300", Impulse(e.E, e.m)), NMax("1e-300", Impulse(En[i], Mass(e, e.out[i].type)))))))
      tol == IF NFinite(lost) THEN NAdd("1e-7", lost) ELSE 3 IN
  ~NFinite(c) \/ NLe(VNorm(VSub(d, VDeflect(e.dir, NMin(1, NMax(-1, c)), a[3]))), tol)
Recoil(e, En) ==
  LET q == VSub(VScale(Impulse(e.E, e.m), e.dir), VScale(En[2], e.out[2].dir)) IN
  NLe(VNorm(VSub(e.out[1].dir, Unit(q))), NAdd("1e-12", NDiv(NMul("1e-14", e.E), VNorm(q))))
Angle(e, i) == LET d == e.out[i].dir  c == NDot(d, e.dir) IN NAtan2(VNorm(VSub(d, VScale(c, e.dir))), c)
DirectionOk(e) ==
  LET En == Energies(e)  A == Angles(e, En) IN
  /\ \A i \in 1..Len(e.out) : Must(<<"unit", i>>, NClose(VNorm(e.out[i].dir), 1, 0, "1e-7"))
  /\ \A i \in 1..Len(e.out) : IF A[i][1] = "recoil" THEN Must("recoil", Recoil(e, En)) ELSE Must(<<"direction", i>>, Direction(e, i, A[i], En))
  /\ IF e.name = "PhotoPairTsai" THEN
       LET x == NDiv(En[1], e.E) IN
       \A i \in {1, 2} : LET t == Angle(e, i) IN NLt(NDiv(ME, NMul(x, e.E)), "1e-5") \/ NLt(t, "1e-7") \/ LET f == TsaiBelow(e.E, x, t, e.comp) IN Must(<<"angle", NStr(f), e.rnd[1 + i]>>, NClose(f, e.rnd[1 + i], 0, "2e-2"))
     ELSE TRUE
\* momentum of a closed system
MomentumOk(e) ==
  IF e.kind \in {"ioniz", "compton", "annihilation"} THEN
    LET En == Energies(e)  p(i) == Impulse(En[i], Mass(e, e.out[i].type))  P == VScale(Impulse(e.E, e.m), e.dir)  S == VAdd(VScale(p(1), e.out[1].dir), VScale(p(2), e.out[2].dir)) IN
    ~NFinite(VNorm(S)) \/ Must("momentum", NLe(VNorm(VSub(P, S)), NAdd(NMul("2e-7", e.E), NDiv(NMul("1e-15", NSq(NAdd(e.E, ME))), NMin(p(1), p(2))))))
  ELSE TRUE
SecOk(e) ==
  /\ Must(<<"thrown", e.thrown>>, e.thrown = "")
  /\ Must("kind", e.type /\ e.kind = Kind(e.name))
  /\ Must("random numbers", Len(e.rnd) = Needs(e.name) /\ e.same)
  /\ Must("types", [i \in 1..Len(e.out) |-> e.out[i].type] = Types(e.kind, e.p))
  /\ Must("place and time", \A i \in 1..Len(e.out) : e.out[i].pos = e.pos /\ e.out[i].time = e.time)
  /\ EnergyOk(e) /\ DirectionOk(e) /\ MomentumOk(e)
(* ----------------------------------------------------------- dispatch *)
Asked(s, a, p) ==
  IF a.kind \in DOMAIN s THEN
    /\ a.n_thrown = "" /\ a.n = Needs(s[a.kind])
    /\ a.thrown = "" /\ a.types = Types(a.kind, p)
  ELSE a.n_thrown = "logic_error" /\ a.thrown = "logic_error"
RECURSIVE DispOk(_, _, _)
DispOk(s, ops, p) ==
  IF ops = << >> THEN TRUE
  ELSE IF Head(ops).k = "add" THEN DispOk(Add(s, Head(ops).name), Tail(ops), p)
  ELSE Must(<<"asked", Head(ops)>>, Asked(s, Head(ops), p)) /\ DispOk(s, Tail(ops), p)
ListOk(e) ==
  IF e.bad THEN e.thrown = "logic_error"
  ELSE /\ e.thrown = ""
       /\ \A i \in 1..Len(e.asked) : LET a == e.asked[i]  s == IF a.has > 0 THEN Add(NoCalculators, Default(a.kind)) ELSE NoCalculators IN Must(<<"asked", a>>, Asked(s, a, e.p))
(* ------------------------------------------------ distribution of angles *)
KmOk(e) == \A i \in 1..Len(e.q) :
  LET f == KmBelow(e, e.q[i][2])  w == NDiv(NAdd(e.q[i][1], "0.5"), e.n) IN
  Must(<<"angles below", e.q[i], NStr(f)>>, NClose(f, w, 0, NAdd("2e-3", NMul(6, NSqrt(NDiv(NMul(w, NSub(1, w)), e.n))))))
Ok(e) == CASE e.k = "sec" -> SecOk(e) [] e.k = "disp" -> DispOk(NoCalculators, e.ops, e.p) [] e.k = "list" -> ListOk(e) [] e.k = "km" -> KmOk(e)
TraceNext == /\ l <= TraceLen
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
=============================================================================

-------------------------- MODULE ScatteringTrace --------------------------
EXTENDS TraceBase, Scattering
VARIABLE l
vars == l
TraceInit == l = 1
One(e, X, Ei, Ef, theta, r) ==
  CASE e.model = "highland" -> Normal(theta, Highland(e.P, X, Ei), r)
    [] e.model = "integral" -> LET t0 == HighlandIntegral(e.P, X, Ei, Ef) IN
                               \/ NLt(t0, "1e-300") /\ NLe(NAbs(theta), "1e-290")
                               \/ NormalWithin(theta, t0, r, IF e.table THEN "5e-2" ELSE "1e-3")
    [] e.model = "moliere" -> MoliereOk(e.P, X, Ei, theta, r, IF e.table THEN "5e-3" ELSE "3e-4")
\* displacement of half the angle and an independent part
Offset(e, s, theta, r) == LET z == NSub(NMul(2, s), theta) IN One(e, e.X, e.Ei, e.Ef, NMul(z, NSqrt(3)), r)
Angle(e) ==
  CASE e.name = "ioniznaive" -> LET c == Ioniz(e.m, e.Ei, e.Ef) IN NClose(NCos(e.zen), c, 0, "1e-10") /\ NGe(e.zen, 0) /\ NLe(e.zen, Pi)
    [] e.name = "bremstsaiapproximation" -> Tsai(e.m, e.Ei, e.Ef, e.zen, e.rnd[1])
    [] e.name = "photoborogpetrukhin" -> LET s == Borog(e.m, e.Ei, e.Ef, e.rnd[1]) IN
                                         NClose(NSq(NSin(NDiv(e.zen, 2))), NMin(1, NMax(0, s)), "1e-6", "1e-9") /\ NGe(e.zen, 0) /\ NLe(e.zen, Pi)
    [] e.name = "epairginneken" -> Exponential(e.zen, EpairG(e.m, e.Ei, e.Ef), e.rnd[1], e.m, e.Ei, e.Ef)
    [] e.name = "photoginneken" -> Exponential(e.zen, PhotoG(e.m, e.Ei, e.Ef), e.rnd[1], e.m, e.Ei, e.Ef)
    [] e.name = "bremsginneken" -> NGe(e.zen, 0) /\ Exponential(e.zen, BremsG(e.m, e.Ei, e.Ef, e.Z), e.rnd[1], e.m, e.Ei, e.Ef)
(* ------------------------------------------------------------- containers *)
Calls(e, c) == SelectSeq(e.calls, LAMBDA x : x.c = c)
\* what acts on a particle in an interaction of a type: the deflection of this type, if there is one
For(e, t) == {i \in 1..Len(e.defl) : e.defl[i].t = t}
Factor(ms, t) == LET s == SelectSeq(ms, LAMBDA m : m.t = t) IN IF s = << >> THEN 1 ELSE s[1].v
(* -------------------------------------------------------------- documents *)
Names == [highland |-> "highland", moliere |-> "moliere", moliereinterpol |-> "moliereinterpol", highlandintegral |-> "highlandintegral", noscattering |-> "none"]
DeflType == [ioniznaive |-> "ioniz", bremstsaiapproximation |-> "brems", bremsginneken |-> "brems", photoborogpetrukhin |-> "photonuclear", photoginneken |-> "photonuclear", epairginneken |-> "epair"]
Default == [defaultioniz |-> "ioniznaive", defaultbrems |-> "bremstsaiapproximation", defaultphotonuclear |-> "photoborogpetrukhin", defaultepair |-> "epairginneken"]
Types == {"particle", "brems", "ioniz", "epair", "photonuclear", "mupair", "hadrons", "continuousenergyloss", "weakint", "compton", "decay", "annihilation", "photopair", "photoproduction", "photomupairproduction", "photoeffect"}
Model(d) == IF d.ms = "" THEN "none" ELSE IF d.ms \in DOMAIN Names THEN Names[d.ms] ELSE "?"
Deflection(n) == IF n \in DOMAIN DeflType THEN n ELSE IF n \in DOMAIN Default THEN Default[n] ELSE "?"
Readable(d) == /\ Model(d) # "?"
               /\ \A i \in 1..Len(d.sd) : Deflection(d.sd[i]) # "?"
               /\ \A i \in 1..Len(d.sm) : d.sm[i].t \in Types
MSFactor(d) == IF d.mm = "" THEN 1 ELSE d.mm
Doc(e) ==
  IF ~Readable(e.low) THEN e.thrown # ""
  ELSE /\ e.thrown = ""
       /\ LET m == Model(e.low) IN
          /\ e.nms = IF m = "none" THEN 0 ELSE 4
          /\ \A k \in 1..4 : NClose(e.ms[k], IF m = "none" THEN 0 ELSE NMul(MSFactor(e.low), e.base[m][k]), "1e-14", 0)
       /\ \A i \in 1..Len(e.defl) :
            LET q == e.defl[i]  mine == {j \in 1..Len(e.low.sd) : DeflType[Deflection(e.low.sd[j])] = q.t} IN
            IF mine = {} THEN q.n = 0 /\ NEq(q.zen, 0)
            ELSE \E j \in mine : LET b == e.angles[Deflection(e.low.sd[j])]  f == Factor(e.low.sm, q.t) IN
                                 q.n = b.n /\ NClose(q.zen, NMul(f, b.zen), "1e-14", 0) /\ NClose(q.az, b.az, "1e-14", 0)
Ok(e) ==
  CASE e.k = "dir" -> /\ UnitDir(e.mean) /\ UnitDir(e.final)
                      /\ SameDir(e.mean, Swing(e.d, e.o[1], e.o[2])) /\ SameDir(e.final, Swing(e.d, e.o[3], e.o[4]))
    [] e.k = "ms" -> /\ One(e, e.X, e.Ei, e.Ef, e.o[3], e.rnd[2]) /\ One(e, e.X, e.Ei, e.Ef, e.o[4], e.rnd[4])
                     /\ Offset(e, e.o[1], e.o[3], e.rnd[1]) /\ Offset(e, e.o[2], e.o[4], e.rnd[3])
                     /\ One(e, e.X, e.Ei, e.Ef, e.angle, e.rnd[2])
                     /\ NClose(e.angle2, NSqrt(NAdd(NSq(e.o[3]), NSq(e.o[4]))), "1e-12", 0)
                     \* whatever was asked before
                     /\ \A i \in 1..4 : NSame(e.again[i], e.o[i])
    [] e.k = "defl" -> /\ e.thrown = "" /\ e.n = (IF e.name = "ioniznaive" THEN 1 ELSE 2) /\ Angle(e)
                       /\ NClose(e.az, NMul(NMul(2, Pi), e.rnd[e.n]), "1e-14", 0)
    [] e.k = "scatter" -> \* a step: four random numbers for a model, none without
         /\ e.drawn = (IF e.ms THEN 4 ELSE 0) /\ Len(e.calls) = (IF e.ms THEN 1 ELSE 0)
         /\ IF ~e.ms THEN VClose(e.mean, e.d, 0, "1e-12") /\ VClose(e.final, e.d, 0, "1e-12")
            ELSE LET c == e.calls[1]  o(i) == NMul(e.mm, c.o[i]) IN
                 /\ c.c = "ms" /\ NEq(c.X, e.X) /\ NEq(c.Ei, e.Ei) /\ NEq(c.Ef, e.Ef) /\ \A i \in 1..4 : NEq(c.rnd[i], e.rnd[i])
                 /\ UnitDir(e.mean) /\ UnitDir(e.final) /\ SameDir(e.mean, Swing(e.d, o(1), o(2))) /\ SameDir(e.final, Swing(e.d, o(3), o(4)))
    [] e.k = "deflect" ->
         LET f == For(e, e.t) IN
         IF f = {} THEN e.calls = << >> /\ e.drawn = 0 /\ VClose(e.new, e.d, 0, "1e-12")
         ELSE LET i == CHOOSE i \in f : TRUE  c == e.calls[1]  z == NMul(Factor(e.sm, e.t), c.zen) IN
              /\ Len(e.calls) = 1 /\ c.c = "defl" /\ c.t = e.t /\ e.drawn = e.defl[i].n
              /\ NEq(c.Ei, e.Ei) /\ NEq(c.Ef, e.Ef) /\ c.comp = e.comp
              /\ Len(c.rnd) = e.drawn /\ \A j \in 1..Len(c.rnd) : NEq(c.rnd[j], e.rnd[j])
              /\ UnitDir(e.new) /\ NClose(NDot(e.new, e.d), NCos(z), 0, "1e-10")
    [] e.k = "doc" -> Doc(e)
TraceNext == /\ l <= TraceLen
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
             /\ l' = l + 1
=============================================================================

--------------------------- MODULE RegistriesTrace ---------------------------
EXTENDS TraceBase, Integers, Registries
VARIABLE l
vars == <<l, particles, media, components>>
TraceInit == l = 1 /\ particles = << >> /\ media = {} /\ components = {}
Ok(e) ==
  CASE e.k = "start" -> TRUE
    [] e.k = "particle" -> IF Accepts(e.def, e.ref) THEN e.thrown = "" /\ SameDef(e.def, e.got) ELSE e.thrown = "invalid_argument"
    [] e.k = "type" -> IF e.t \in DOMAIN particles THEN e.thrown = "" /\ SameDef(particles[e.t], e.got)
                       ELSE IF e.t \in BuiltInTypes THEN e.thrown = "" /\ <<e.t, e.got.name>> \in BuiltIn
                       ELSE e.thrown = "invalid_argument"
    [] e.k = "builtin" -> /\ <<e.def.type, e.def.name>> \in BuiltIn /\ SameDef(e.def, e.got) /\ (IF e.def.type = 41 THEN NClose(e.def.charge, MagneticCharge, "1e-6", 0) ELSE NEq(e.def.charge, Charge(e.def.type)))
                          /\ e.def.partner = Partner(e.def.type) /\ NEq(e.def.low, IF e.def.type = 22 THEN PairThreshold ELSE e.def.mass) /\ e.anti = Anti(e.def.type)
                          /\ NEq(e.def.mass, e.antimass) /\ NEq(e.def.life, e.antilife)
    [] e.k = "builder" -> NEq(e.low, NMax(e.set, e.mass)) /\ e.copied
    [] e.k = "medium" -> Derived(e.m, e.got)
    [] e.k = "medhash" -> IF \E m \in media : SameMedium(m, e.m) THEN e.thrown = "" /\ FoundMedium(e.m, e.got) ELSE e.thrown = "invalid_argument"
    [] e.k = "nohash" -> e.thrown = "invalid_argument"
    [] e.k = "comp" -> TRUE
    [] e.k = "comphash" -> IF \E c \in components : SameComp(c, e.c) THEN e.thrown = "" /\ FoundComp(e.c, e.got) ELSE e.thrown = "invalid_argument"
    [] e.k = "name" -> IF \E i \in 1..Len(MediumNames) : MediumNames[i] = e.low
                       THEN e.thrown = "" /\ Material(e.low) \in {e.equal[i] : i \in 1..Len(e.equal)}
                            /\ (\A i, j \in 1..Len(e.equal) : i = j)
                       ELSE e.thrown = "invalid_argument"
    [] e.k = "kind" -> IF e.i \in 0..18 THEN e.thrown = "" /\ {Material(MediumNames[e.i + 1])} = {e.equal[i] : i \in 1..Len(e.equal)}
                       ELSE e.thrown = "invalid_argument"
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
     /\ IF e.k = "start" THEN particles' = << >> ELSE IF e.k = "particle" THEN MakeParticle(e.def) ELSE UNCHANGED particles
     /\ CASE e.k = "start" -> media' = {} /\ components' = {}     \* from here on only things never used before
          [] e.k \in {"medium"} -> MakeMedium(e.m)
          [] e.k \in {"comp"} -> MakeComp(e.c) /\ UNCHANGED media
          [] OTHER -> UNCHANGED <<media, components>>
  /\ l' = l + 1
=============================================================================

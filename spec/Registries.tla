----------------------------- MODULE Registries -----------------------------
(* The registries of a process: particles by type, media and components by   *)
(* hash, media by name.                                                      *)
EXTENDS Num, Sequences, FiniteSets
VARIABLES particles,    \* type -> definition: the first one made with it
          media,        \* the contents of all media made so far
          components    \* the contents of all components made so far
(* ------------------------------------------------------------- built in - *)
BuiltIn == { <<11, "EMinus">>, <<-11, "EPlus">>, <<12, "NuE">>, <<-12, "NuEBar">>, <<13, "MuMinus">>, <<-13, "MuPlus">>,
  <<14, "NuMu">>, <<-14, "NuMuBar">>, <<15, "TauMinus">>, <<-15, "TauPlus">>, <<16, "NuTau">>, <<-16, "NuTauBar">>,
  <<22, "Gamma">>, <<111, "Pi0">>, <<211, "PiPlus">>, <<-211, "PiMinus">>, <<311, "K0">>, <<321, "KPlus">>, <<-321, "KMinus">>,
  <<41, "Monopole">>, <<9500, "SMPPlus">>, <<-9500, "SMPMinus">>, <<-1000015, "StauPlus">>, <<1000015, "StauMinus">> }
BuiltInTypes == {b[1] : b \in BuiltIn}
Charge(t) == CASE t \in {11, 13, 15, -211, -321, -9500, 1000015} -> -1
               [] t \in {-11, -13, -15, 211, 321, 9500, -1000015} -> 1
               [] OTHER -> 0
(* half the inverse fine structure constant                                *)
MagneticCharge == NDiv("137.035999", 2)
(* weak partners: the neutrino of a charged lepton and vice versa            *)
Partner(t) == CASE t \in {11, 13, 15} -> t + 1 [] t \in {-11, -13, -15} -> t - 1
                [] t \in {12, 14, 16} -> t - 1 [] t \in {-12, -14, -16} -> t + 1 [] OTHER -> 0
(* photons which cannot produce a pair any more are not propagated           *)
PairThreshold == NMul(2, "0.5109989461")
(* particle and antiparticle: same mass, lifetime                            *)
Anti(t) == IF -t \in BuiltInTypes /\ t # 41 THEN -t ELSE t
MediumNames == <<"water", "waterpdg2001", "waterpdg2020", "ice", "icepdg2001", "icepdg2020", "salt", "standardrock", "frejusrock",
  "iron", "hydrogen", "lead", "copper", "uranium", "air", "paraffin", "antareswater", "cascadiabasinwater", "liquidargon">>
(* the material a name stands for                                            *)
Material(n) == CASE n = "water" -> "waterpdg2020" [] n = "ice" -> "icepdg2020" [] OTHER -> n

(* ------------------------------------------------------------ particles - *)
\* a definition: [name, mass, low, life, charge, table, decay, type, partner]
Known(t) == t \in DOMAIN particles \/ t \in BuiltInTypes
SameDef(a, b) == /\ a.name = b.name /\ NEq(a.mass, b.mass) /\ NEq(a.low, b.low) /\ NEq(a.life, b.life) /\ NEq(a.charge, b.charge)
                 /\ a.table = b.table /\ a.decay = b.decay /\ a.type = b.type /\ a.partner = b.partner
\* ref: <<the built-in definition of the type>>, if there is one
Accepts(d, ref) == IF d.type \in BuiltInTypes THEN SameDef(ref[1], d)
                   ELSE d.type \in DOMAIN particles => SameDef(particles[d.type], d)
MakeParticle(d) == IF Known(d.type) THEN UNCHANGED particles
                   ELSE particles' = [t \in DOMAIN particles \cup {d.type} |-> IF t = d.type THEN d ELSE particles[t]]
(* ---------------------------------------------------------------- media - *)
\* a component: [name, Z, A, n]; the name is no part of its identity
SameComp(a, b) == NEq(a.Z, b.Z) /\ NEq(a.A, b.A) /\ NEq(a.n, b.n)
SameMedium(a, b) == /\ \A f \in {"I", "C", "a", "m", "X0", "X1", "d0", "rho"} : NEq(a[f], b[f])
                    /\ Len(a.comps) = Len(b.comps) /\ \A i \in 1..Len(a.comps) : SameComp(a.comps[i], b.comps[i])
MakeComp(c) == components' = components \cup {c}
MakeMedium(m) == media' = media \cup {m} /\ components' = components \cup {m.comps[i] : i \in 1..Len(m.comps)}
\* what is found under the hash of a medium: one made before, of the same content
FoundMedium(m, r) == \E k \in media : k.name = r.name /\ SameMedium(k, r) /\ SameMedium(r, m)
FoundComp(c, r) == \E k \in components : k.name = r.name /\ SameComp(k, r) /\ SameComp(r, c)
(* derived quantities                                                        *)
NA == "6.022140857e23"
MP == "938.2720813"
MN == "939.565413"
Charges(m) == NSum([i \in 1..Len(m.comps) |-> NMul(m.comps[i].n, m.comps[i].Z)])
Nucleons(m) == NSum([i \in 1..Len(m.comps) |-> NMul(m.comps[i].n, m.comps[i].A)])
Weight(c) == NDiv(NAdd(NMul(c.Z, MP), NMul(NSub(c.A, c.Z), MN)), c.A)
MeanWeight(m) == NDiv(NSum([i \in 1..Len(m.comps) |-> NMul(NMul(m.comps[i].n, m.comps[i].A), Weight(m.comps[i]))]), Nucleons(m))
Derived(m, g) == /\ NClose(g.sumZ, Charges(m), "1e-14", 0) /\ NClose(g.sumA, Nucleons(m), "1e-14", 0)
                 /\ NClose(g.ZA, NDiv(Charges(m), Nucleons(m)), "1e-14", 0)
                 /\ NClose(g.mol, NDiv(NMul(m.rho, NA), Nucleons(m)), "1e-14", 0)
                 /\ NClose(g.MM, MeanWeight(m), "1e-13", 0)
                 /\ \A i \in 1..Len(m.comps) : NClose(g.w[i], Weight(m.comps[i]), "1e-14", 0)
=============================================================================

-------------------------------- MODULE Cuts --------------------------------
(* Energy cuts: an absolute one, a relative one, and whether the continuous  *)
(* losses are randomised.                                                    *)
EXTENDS Num, Sequences, FiniteSets
Valid(ecut, vcut) == NGt(ecut, 0) /\ NGt(vcut, 0) /\ NLe(vcut, 1)
Cut(c, E) == NMin(NDiv(c.ecut, E), c.vcut)
CutIn(c, lim, E) == NMin(NMax(lim[1], Cut(c, E)), lim[2])
Same(c, d) == NEq(c.ecut, d.ecut) /\ NEq(c.vcut, d.vcut) /\ c.cont = d.cont
SameHash(c, d) == NEq(c.ecut, d.ecut) /\ NEq(c.vcut, d.vcut)
(* documents: an entry is absent (<< >>) or <<kind, value>>; kind is "num",  *)
(* "str", "bool" or "null"                                                   *)
Infinity == {"inf", "infinity"}
Ecut(d) == IF d.ecut[1] = "num" THEN d.ecut[2] ELSE "inf"
Readable(d, low) ==
  /\ d.ecut # << >> /\ d.vcut # << >> /\ d.cont # << >>
  /\ (d.ecut[1] = "num" \/ (d.ecut[1] = "str" /\ low \in Infinity))
  /\ d.vcut[1] = "num" /\ d.cont[1] = "bool"
  /\ Valid(Ecut(d), d.vcut[2])
Read(d) == [ecut |-> Ecut(d), vcut |-> d.vcut[2], cont |-> d.cont[2] = "true"]
=============================================================================

------------------------------ MODULE Sectors ------------------------------
(* Which sector a particle is in, and what a configuration document says    *)
(* about the sectors.                                                       *)
EXTENDS PropLoop

(* ---- the sector of a ray: highest hierarchy, the first one among equals - *)
Before(W, i, j) == W[i].h > W[j].h \/ (W[i].h = W[j].h /\ i < j)
Candidates(W, p, u) ==
  LET vague(i) == Doubtful(W[i].g, p, u) \/ Grazes(W[i].g, p, u)
      sure == {i \in 1..Len(W) : ~vague(i) /\ In(W[i].g, p, u)}
      maybe == sure \cup {i \in 1..Len(W) : vague(i)}
  IN {i \in maybe : \A j \in sure : ~Before(W, j, i)} \cup (IF sure = {} THEN {0} ELSE {})

(* ---- documents --------------------------------------------------------- *)
(* A document is a record with some of the fields global and sectors; a      *)
(* setting of a sector wins over the global one, which wins over the default *)
Keys == {"medium", "cuts", "exact_time", "scattering", "density_distribution", "CrossSections", "do_interpolation"}
Mandatory == {"medium", "cuts"}
\* << >> is "nothing said", <<v>> is v
Default(k) == IF k \in {"exact_time", "do_interpolation"} THEN <<TRUE>> ELSE << >>
Has_(r, f) == f \in DOMAIN r
Global(doc) == IF Has_(doc, "global") THEN doc.global ELSE [none |-> 0]
Setting(doc, s, k) == IF Has_(s, k) THEN <<s[k]>> ELSE IF Has_(Global(doc), k) THEN <<Global(doc)[k]>> ELSE Default(k)
Complete(doc) == /\ Has_(doc, "sectors")
                 /\ \A i \in 1..Len(doc.sectors) :
                      LET s == doc.sectors[i] IN
                      /\ Has_(s, "geometries")
                      /\ \A k \in Mandatory : Has_(s, k) \/ Has_(Global(doc), k)
(* one sector per geometry, in the order of the document *)
RECURSIVE Flat(_, _)
Flat(doc, i) == IF i > Len(doc.sectors) THEN << >>
                ELSE LET s == doc.sectors[i] IN
                     [j \in 1..Len(s.geometries) |-> [g |-> s.geometries[j], set |-> [k \in Keys |-> Setting(doc, s, k)]]] \o Flat(doc, i + 1)
Meaning(doc) == IF Complete(doc) THEN [ok |-> TRUE, sectors |-> Flat(doc, 1)] ELSE [ok |-> FALSE, sectors |-> << >>]
=============================================================================

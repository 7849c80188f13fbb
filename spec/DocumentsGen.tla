---------------------------- MODULE DocumentsGen ----------------------------
(* Every document one change away from a good one, and for the small kinds  *)
(* two changes away (all kinds if Deep).                                *)
EXTENDS Documents, SequencesExt, Json, IOUtils
CONSTANT Deep
One(kind) == UNION {Edits(kind, d) \cup {d} : d \in Bases(kind)}
Two(kind) == One(kind) \cup (IF kind \in {"cuts", "geometry", "density"} \/ Deep THEN UNION {Edits(kind, d) : d \in One(kind)} ELSE {})
Of(kind) == LET s == SetToSeq(Two(kind)) IN [i \in 1..Len(s) |-> [kind |-> kind, doc |-> s[i], means |-> Meaning(kind, s[i]).v]]
ASSUME ndJsonSerialize(IOEnv.OUT, FoldSeq(LAMBDA k, acc : acc \o Of(k), << >>, SetToSeq(Kinds)))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

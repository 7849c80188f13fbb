---------------------------- MODULE RegistriesGen ----------------------------
(* Histories of making and looking up a few particles, media and components. *)
(* Numbers stand for the variants known to the driver; 1 and 2 share their   *)
(* type (particles) or all but one parameter.                                *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
P == [k : {"particle"}, i : 1..5] \cup [k : {"type"}, t : {0, 1, 2}]
M == [k : {"medium"}, i : 1..6] \cup [k : {"medhash"}, i : 1..6]
C == [k : {"comp"}, i : 1..5] \cup [k : {"comphash"}, i : 1..5]
Short == {<<a, b, c>> : a \in P, b \in P, c \in P} \cup {<<a, b, c>> : a \in M, b \in M, c \in M} \cup {<<a, b, c>> : a \in C, b \in C, c \in C}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Short))
Init == x = 0
Next == UNCHANGED x
=============================================================================

-------------------------- MODULE InteractionsGen --------------------------
(* Every set of up to three processes with rates on one or two components.   *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
R == {0, 1, 3}
Process == {<< >>} \cup {<<a>> : a \in R} \cup {<<a, b>> : a \in R, b \in R}
Processes == {<<p>> : p \in Process} \cup {<<p, q>> : p \in Process, q \in Process} \cup {<<p, q, r>> : p \in Process, q \in Process, r \in Process}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Processes))
Init == x = 0
Next == UNCHANGED x
=============================================================================

--------------------------- MODULE SecondariesGen ---------------------------
(* Histories of adding calculators (also a second one for the same kind) and *)
(* asking, also for kinds that have none.                                    *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
A == [k : {"add"}, name : {"BremsNoDeflection", "BremsEGS4Approximation", "NaivIonization", "Photonuclear"}]
Q == [k : {"ask"}, kind : {"brems", "ioniz", "nuclear", "weak", "decay", "unknown"}]
Short == {<<a, b>> : a \in A, b \in Q} \cup {<<b>> : b \in Q} \cup {<<a, b, c, d>> : a \in A, b \in A \cup Q, c \in A, d \in Q}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Short))
Init == x = 0
Next == UNCHANGED x
=============================================================================

-------------------------- MODULE InterpolationGen --------------------------
\* every history of up to Length operations on a table, ending in questions
EXTENDS Interpolation, TLC, Json, IOUtils, SequencesExt
CONSTANT Length
VARIABLE done
Seqs == UNION { [1..k -> Ops] : k \in 0..Length }
Kinds == {"f1", "f2", "a1", "a2", "a2x", "b1", "b2"}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({ [kind |-> k, ops |-> s] : k \in Kinds, s \in Seqs }))
=============================================================================

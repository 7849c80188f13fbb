-------------------------- MODULE ParticleStatesGen --------------------------
(* Every history of at most three operations on two states: one that makes   *)
(* the first state, then any two.                                            *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
P == {<<"1", "2", "-3">>}
D == {<<"0", "0.6", "0.8">>}
Types == {13, 22, 0, 4711}
Make(i) == {[k |-> "make", i |-> i, ty |-> ty, p |-> p, d |-> d, E |-> "1000", t |-> "2", l |-> "30"] : ty \in Types, p \in P, d \in D}
Other(i) == {[k |-> "default", i |-> i], [k |-> "untyped", i |-> i, p |-> <<"7", "8", "9">>, d |-> <<"1", "0", "0">>, E |-> "500", t |-> "6", l |-> "4"],
             [k |-> "copy", i |-> i, j |-> 3 - i]}
   \cup {[k |-> "type", i |-> i, v |-> v] : v \in {11, 15, 0, 4711, -1000015}}
   \cup {[k |-> "mom", i |-> i, v |-> v] : v \in {"0", "3", "1e-9", "1e12"}}
   \cup {[k |-> f, i |-> i, v |-> v] : f \in {"E", "t", "l"}, v \in {"2000", "0"}}
   \cup {[k |-> f, i |-> i, v |-> <<"0", "-1", "0">>] : f \in {"p", "d"}}
Ops == UNION {Make(i) \cup Other(i) : i \in {1, 2}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({<<m, a, b>> : m \in Make(1), a \in Ops, b \in Ops}))
Init == x = 0
Next == UNCHANGED x
=============================================================================

---------------------------- MODULE DecayTableGen ----------------------------
(* Histories of two decay tables: every sequence of at most three additions  *)
(* of channels with branching ratios from a small set (equal ones included)  *)
(* followed by one operation on tables; and, for every table of up to four   *)
(* channels in every order, a full set of selections.                        *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
Br == {"0.25", "0.5", "1"}
Ch == 1..4
Add(i) == {[k |-> "add", i |-> i, br |-> b, ch |-> c] : b \in Br, c \in {1, 3, 5}}
Ops == {[k |-> "copy", i |-> 2, j |-> 1], [k |-> "assign", i |-> 2, j |-> 1], [k |-> "assign", i |-> 1, j |-> 1], [k |-> "swap", i |-> 1, j |-> 2],
        [k |-> "stable", i |-> 1], [k |-> "uniform", i |-> 1, v |-> FALSE], [k |-> "uniform", i |-> 1, v |-> TRUE], [k |-> "selfadd", i |-> 1, br |-> "0.25"]}
Mixed == {<<a, b, o, d>> : a \in Add(1), b \in Add(1) \cup Add(2), o \in Ops, d \in {[k |-> "add", i |-> 1, br |-> "0.5", ch |-> 6], [k |-> "uniform", i |-> 2, v |-> FALSE], [k |-> "stable", i |-> 2]}}
Perm == {p \in Ch \X Ch \X Ch \X Ch : \A i, j \in Ch : i # j => p[i] # p[j]}
Ratios == {<<"0.1", "0.2", "0.3", "0.4">>, <<"1", "1", "1", "1">>, <<"1e-9", "1", "3", "1e9">>, <<"0.5", "0.5", "0.25", "0.25">>, <<"0", "1", "0", "2">>}
Full == {[i \in Ch |-> [k |-> "add", i |-> 1, br |-> r[p[i]], ch |-> i]] : p \in Perm, r \in Ratios}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Mixed) \o SetToSeq(Full))
Init == x = 0
Next == UNCHANGED x
=============================================================================

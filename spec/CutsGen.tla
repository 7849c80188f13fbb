------------------------------- MODULE CutsGen -------------------------------
(* All cut settings and documents over small sets of values.                 *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
Es == {"-inf", "-1", "-1e-300", "0", "1e-300", "1e-3", "1", "500", "500.0000000000001", "1e6", "inf"}
Vs == {"-inf", "-0.5", "0", "1e-300", "1e-6", "0.05", "0.5", "0.9999999999999999", "1", "1.0000000000000002", "2", "inf"}
Settings == {[k |-> "cut", ecut |-> e, vcut |-> v, cont |-> b] : e \in Es, v \in Vs, b \in BOOLEAN}
DE == {<< >>, <<"num", "500">>, <<"num", "0">>, <<"num", "-3">>, <<"num", "7">>, <<"str", "inf">>, <<"str", "Inf">>, <<"str", "INFINITY">>, <<"str", "infinity">>, <<"str", "500">>, <<"str", "nan">>, <<"str", "">>, <<"str", "-inf">>, <<"bool", "true">>, <<"null", "">>}
DV == {<< >>, <<"num", "0.05">>, <<"num", "1">>, <<"num", "0">>, <<"num", "1.5">>, <<"str", "inf">>, <<"str", "0.5">>, <<"null", "">>}
DC == {<< >>, <<"bool", "true">>, <<"bool", "false">>, <<"str", "true">>, <<"null", "">>}
Documents == {[k |-> "doc", ecut |-> e, vcut |-> v, cont |-> c] : e \in DE \ {<<"bool", "true">>}, v \in DV, c \in DC}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Settings) \o SetToSeq(Documents))
Init == x = 0
Next == UNCHANGED x
=============================================================================

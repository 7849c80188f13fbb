------------------------------- MODULE Loggers -------------------------------
(* The registry of loggers: one per name; the level of each is the one set   *)
(* last, for it or for all; one created later starts with the level set for  *)
(* all.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Levels
VARIABLES global, level      \* level: from the names known to their levels
Known == DOMAIN level
Default == 3                 \* warn
Init == global = Default /\ level = << >>
GetF(lv, gl, n) == [m \in DOMAIN lv \cup {n} |-> IF m \in DOMAIN lv THEN lv[m] ELSE gl]
Request(n) == level' = GetF(level, global, n) /\ UNCHANGED global
SetAll(v) == level' = [m \in Known |-> v] /\ global' = v
SetOne(n, v) == level' = [GetF(level, global, n) EXCEPT ![n] = v] /\ UNCHANGED global
Next == \E n \in Names, v \in Levels : Request(n) \/ SetAll(v) \/ SetOne(n, v)
\* a logger keeps its level unless somebody sets it
Stays == [][\A m \in Known : m \in DOMAIN level' /\ (level'[m] # level[m] => \/ global' = level'[m] \/ \A k \in Known \ {m} : level'[k] = level[k])]_<<global, level>>
OnlySetLevels == \A m \in Known : level[m] \in Levels \cup {Default}
Emits(v, msg) == msg >= v
=============================================================================

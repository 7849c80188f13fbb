----------------------------- MODULE LoggersGen -----------------------------
(* All histories of at most Depth operations on two loggers; every one that  *)
(* reaches the depth is printed.                                             *)
EXTENDS Loggers, TLC, Json
CONSTANT Depth
VARIABLE h
GInit == Init /\ h = << >>
Do(o) == Len(h) < Depth /\ h' = Append(h, o)
GNext == \E n \in Names, v \in Levels :
                                       \/ (Request(n) /\ Do([k |-> "get", n |-> n]))
                                       \/ (SetAll(v) /\ Do([k |-> "all", v |-> v]))
                                       \/ (SetOne(n, v) /\ Do([k |-> "one", n |-> n, v |-> v]))
Out == Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================

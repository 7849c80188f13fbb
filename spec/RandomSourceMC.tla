---------------------------- MODULE RandomSourceMC ----------------------------
(* All histories up to a depth, with up to Depth draws; the complete ones    *)
(* are printed as scripts.                                                   *)
EXTENDS RandomSource, TLC, Json
CONSTANT Depth
VARIABLE h
MCInit == RInit /\ h = << >>
Do(o) == Len(h) < Depth /\ h' = Append(h, o)
MCNext == \/ \E s \in Seeds : Seed(s) /\ Do([k |-> "seed", s |-> s])
          \/ Advance(2) /\ Do([k |-> "draw", n |-> 2])
          \/ Advance(0) /\ Do([k |-> "lib"])
          \/ \E s \in Slots : Save(s) /\ Do([k |-> "save", s |-> s])
          \/ \E s \in Slots : Restore(s) /\ Do([k |-> "restore", s |-> s])
          \/ \E k \in Owns : Install(k) /\ Do([k |-> "own", g |-> k])
          \/ source # 0 /\ Uninstall /\ Do([k |-> "default"])
Out == (Len(h) = Depth) => PrintT("GEN " \o ToJson(h))
=============================================================================

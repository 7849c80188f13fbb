------------------------------ MODULE ObjectsMC ------------------------------
(* All histories of three objects up to a depth that begin with making one;   *)
(* values are abstract: parameter 0 or 1.  Complete histories are printed.    *)
EXTENDS Objects, TLC, Json
CONSTANT Depth
VARIABLE h
Slots == 1..3
MCInit == h = <<[k |-> "make", s |-> 1, v |-> 0]>> /\ objs = (1 :> [fam |-> "f", kind |-> "k", par |-> <<0>>, ops |-> << >>]) /\ memo = << >>
Log(o) == Len(h) < Depth /\ h' = Append(h, o) /\ UNCHANGED memo
MCNext == \/ \E s \in Slots, v \in {0, 1} : Make(s, "f", "k", <<v>>) /\ Log([k |-> "make", s |-> s, v |-> v])
          \/ \E s \in Slots : \E f \in DOMAIN objs \ {s} : Copy(s, f) /\ Log([k |-> "copy", s |-> s, from |-> f])
          \/ \E s, f \in DOMAIN objs : Copy(s, f) /\ Log([k |-> "assign", s |-> s, from |-> f])
          \/ \E s \in DOMAIN objs : Set(s, 1, <<1>>) /\ Log([k |-> "set", s |-> s])
          \/ \E s \in DOMAIN objs : Do(s, "x") /\ Log([k |-> "do", s |-> s])
          \/ \E s \in DOMAIN objs : Drop(s) /\ Log([k |-> "drop", s |-> s])
(* a step touches one object; what is copied is equal, whatever else happened *)
OneAtATime == [][LET o == h'[Len(h')] IN \A s \in DOMAIN objs \ {o.s} : s \in DOMAIN objs' /\ objs'[s] = objs[s]]_<<objs, h>>
CopiesAreEqual == LET o == h[Len(h)] IN o.k \in {"copy", "assign"} => MustEqual(objs[o.s], objs[o.from])
EqualOrDifferent == \A a, b \in DOMAIN objs : ~(MustEqual(objs[a], objs[b]) /\ MustDiffer(objs[a], objs[b]))
Out == (Len(h) = Depth) => PrintT("GEN " \o ToJson(h))
=============================================================================

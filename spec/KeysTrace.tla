----------------------------- MODULE KeysTrace -----------------------------
(* Configurations asked one after the other, each by itself (fresh) and with  *)
(* the store of tables that all before it have filled.                        *)
EXTENDS Keys, TraceBase
VARIABLES l,
          byid,    \* configuration -> its hash and the files of its tables
          byhash   \* hash of a calculator -> what the first one with it answered
tvars == <<store, answers, l, byid, byhash>>
Names(e) == [i \in 1..Len(e.files) |-> e.files[i].name]
\* different calculators may have the same hash (the time belongs to the displacement), their tables have other names
Key(e) == IF e.kind = "utility" THEN <<e.what, e.table, e.hash>> ELSE <<e.kind, e.table, e.hash>>
AskOk(e) ==
  /\ Must(<<"thrown", e.thrown, e.again>>, e.thrown = "" /\ e.again = "")
  /\ Must("a stored table belonged to another configuration", e.got = e.fresh)
  /\ Must("hash with and without stored tables", e.hash = e.hash2)
  /\ Must("stored tables are found again", \A i \in 1..Len(e.files) : e.files[i].built <=> (e.files[i].name \notin DOMAIN store /\ \A j \in 1..(i - 1) : e.files[j].name # e.files[i].name))
  /\ e.id \in DOMAIN byid => Must("equal configurations, different keys", byid[e.id] = <<e.hash, Names(e)>>)
  /\ (e.hash # "" /\ Key(e) \in DOMAIN byhash) => Must(<<"different configurations, equal hashes", byhash[Key(e)][1]>>, byhash[Key(e)][2] = e.fresh)
TraceInit == KInit /\ l = 1 /\ byid = EmptyStore /\ byhash = EmptyStore
TraceNext ==
  /\ l <= TraceLen
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.k = "start" THEN store' = EmptyStore /\ UNCHANGED <<answers, byid, byhash>>
     ELSE /\ IF AskOk(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
          /\ store' = [n \in DOMAIN store \cup { e.files[i].name : i \in 1..Len(e.files) } |-> 0]
          /\ answers' = answers
          /\ byid' = IF e.id \in DOMAIN byid THEN byid ELSE Put(byid, e.id, <<e.hash, Names(e)>>)
          /\ byhash' = IF e.hash = "" \/ Key(e) \in DOMAIN byhash THEN byhash ELSE Put(byhash, Key(e), <<e.id, e.fresh>>)
=============================================================================

----------------------------- MODULE LoggersTrace -----------------------------
EXTENDS TraceBase, Integers
Names == 1..6
Levels == 0..6
VARIABLES global, level, l, id
INSTANCE Loggers
vars == <<global, level, l, id>>
TraceInit == Init /\ l = 1 /\ id = << >>
(* e.state: [n, v, id, emits] of every logger in the registry afterwards;    *)
(* e.got: the identity of the logger the operation returned (0 if none)      *)
Matches(e, lv) ==
  /\ {e.state[i].n : i \in 1..Len(e.state)} = DOMAIN lv /\ Len(e.state) = Cardinality(DOMAIN lv)
  /\ \A i \in 1..Len(e.state) : LET s == e.state[i] IN
       /\ s.v = lv[s.n]
       /\ s.emits = [k \in 1..6 |-> Emits(lv[s.n], k - 1)]
       /\ s.name
       /\ (s.n \in DOMAIN id => id[s.n] = s.id)
       /\ \A j \in 1..Len(e.state) : i # j => e.state[j].id # s.id
       /\ (e.op.k # "all" /\ e.op.k # "new" /\ s.n = e.op.n) => e.got = s.id
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] o == Trace[l].op IN
     /\ CASE o.k = "get" -> Request(o.n)
          [] o.k = "all" -> SetAll(o.v)
          [] o.k = "one" -> SetOne(o.n, o.v)
          [] o.k = "new" -> global' = o.v /\ level' = << >>
     /\ IF Matches(e, level') THEN TRUE ELSE PrintT(<<"REJECT", l>>)
     /\ id' = IF o.k = "new" THEN << >> ELSE [n \in DOMAIN level' |-> LET i == CHOOSE i \in 1..Len(e.state) : e.state[i].n = n IN e.state[i].id]
  /\ l' = l + 1
=============================================================================

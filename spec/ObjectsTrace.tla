---------------------------- MODULE ObjectsTrace ----------------------------
EXTENDS TraceBase, Integers, Objects
VARIABLE l
vars == <<l, objs, memo>>
TraceInit == l = 1 /\ objs = << >> /\ memo = << >>
After(e) ==
  CASE e.k = "start" -> objs' = << >>
    [] e.k = "make" -> Make(e.s, e.fam, e.kind, e.par)
    [] e.k \in {"copy", "assign"} -> Copy(e.s, e.from)
    [] e.k = "set" -> Set(e.s, e.f, e.v)
    [] e.k = "do" -> Do(e.s, e.op)
    [] e.k = "drop" -> Drop(e.s)
\* what is seen of all objects after a step: m is what is known so far
Right(e, o, m) ==
  /\ {e.seen[i].s : i \in 1..Len(e.seen)} = DOMAIN o
  /\ \A i \in 1..Len(e.seen) : LET x == e.seen[i] IN
       /\ x.get = o[x.s].par
       /\ Value(o[x.s]) \in DOMAIN m => x.beh = m[Value(o[x.s])]
       /\ \A j \in 1..Len(e.seen) : Value(o[e.seen[j].s]) = Value(o[x.s]) => e.seen[j].beh = x.beh
  /\ \A i \in 1..Len(e.eq) : LET q == e.eq[i]  a == o[q.a]  b == o[q.b] IN
       /\ q.ne = ~q.eq
       /\ MustEqual(a, b) => q.eq
       /\ MustDiffer(a, b) => ~q.eq
       /\ \A j \in 1..Len(e.eq) : (e.eq[j].a = q.b /\ e.eq[j].b = q.a) => e.eq[j].eq = q.eq
       /\ q.eq => \A k, n \in 1..Len(e.seen) : (e.seen[k].s = q.a /\ e.seen[n].s = q.b) => e.seen[k].beh = e.seen[n].beh
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ After(e)
     /\ IF Right(e, objs', memo) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
     /\ IF e.k = "start" THEN memo' = << >> ELSE Learn([i \in 1..Len(e.seen) |-> [o |-> objs'[e.seen[i].s], beh |-> e.seen[i].beh]])
  /\ l' = l + 1
=============================================================================

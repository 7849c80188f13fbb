------------------------- MODULE ParticleStatesTrace -------------------------
EXTENDS TraceBase, ParticleStates
VARIABLES l, defs, objs
vars == <<l, defs, objs>>
TraceInit == l = 1 /\ defs = << >> /\ objs = << >>
N(o) == Len(o)
OpOk(e) ==
  /\ \A i \in 1..N(objs) : IF i = e.op.i
        THEN Makes(defs, e.op, objs[i], IF Has(e.op, "j") THEN objs[e.op.j] ELSE objs[i], e.objs[i], e.thrown)
        ELSE SameState(e.objs[i], objs[i])
  /\ \A i \in 1..N(objs) : Answers(defs, e.objs[i], e.q[i])
  /\ \A i, j \in 1..N(objs) : /\ e.eq[i][j] = SameState(e.objs[i], e.objs[j])
                              /\ e.ne[i][j] = ~SameState(e.objs[i], e.objs[j])
Ok(e) == CASE e.e = "world" -> \A i, j \in 1..Len(e.defs) : e.defs[i].t = e.defs[j].t => i = j
           [] e.e = "new"   -> \A i \in 1..Len(e.objs) : SameState(e.objs[i], Empty)
           [] e.e = "op"    -> OpOk(e)
           [] e.e = "stoch" -> StochasticOk(e.x, e.y)
           [] e.e = "cont"  -> ContinuousOk(e.x, e.y)
TraceNext ==
  /\ l <= TraceLen
  /\ LET e == Trace[l] IN
     /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
     /\ defs' = IF e.e = "world" THEN e.defs ELSE defs
     /\ objs' = IF e.e \in {"new", "op"} THEN e.objs ELSE objs
  /\ l' = l + 1
=============================================================================

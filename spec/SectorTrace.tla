---------------------------- MODULE SectorTrace ----------------------------
EXTENDS Sectors, TraceBase
VARIABLES l, W
Ok(e) ==
  CASE e.e = "world" -> TRUE
    [] e.e = "at" -> e.got \in Candidates(W, e.p, e.d) /\ (e.got = 0) = (e.thrown = "logic_error") /\ e.thrown \in {"", "logic_error"}
    [] e.e = "config" ->
         LET m == Meaning(e.doc) IN
         /\ m = e.means
         /\ IF m.ok THEN /\ e.thrown = "" /\ e.reached /\ Len(e.ref) > 1
                         /\ Len(e.got) = Len(e.ref)
                         /\ \A i \in 1..Len(e.got) : \A k \in 1..Len(e.got[i]) : NClose(e.got[i][k], e.ref[i][k], "1e-9", "1e-9")
            ELSE e.thrown = "invalid_argument"
    [] e.e = "process" -> \* the process the document names is the one which happens, as often and as hard as its parametrization says
         /\ e.thrown = "" /\ Len(e.got) = Len(e.ref)
         /\ \A i \in 1..Len(e.got) : e.got[i].ty = e.ref[i].ty /\ e.got[i].h = e.ref[i].h /\ \A k \in 1..3 : NClose(e.got[i].x[k], e.ref[i].x[k], "1e-9", "1e-12")
         /\ \E i \in 1..Len(e.got) : e.got[i].ty = e.makes
    [] e.e = "file" -> e.thrown = e.want
TraceInit == l = 1 /\ W = << >>
TraceNext == /\ l <= TraceLen /\ l' = l + 1
             /\ W' = IF Trace[l].e = "world" THEN Trace[l].sectors ELSE W
             /\ IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================

---------------------------- MODULE IntegralTrace ---------------------------
EXTENDS Integral, TraceBase
VARIABLES l, st
Lost == << >>
Known(e) == CASE e.e = "new" -> TRUE
              [] OTHER -> e.o \in DOMAIN st
TraceInit == l = 1 /\ st = << >>
TraceNext == /\ l <= TraceLen
             /\ l' = l + 1
             /\ LET e == Trace[l]
                    s0 == IF e.e = "new" /\ e.o = 1 THEN << >> ELSE st
                IN IF ~Known(e) THEN st' = st         \* the case was given up before
                   ELSE LET S == Step(s0, e) IN
                        IF S = {} THEN PrintT(<<"REJECT", l>>) /\ st' = Lost
                        ELSE st' \in S
=============================================================================

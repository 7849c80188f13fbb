----------------------------- MODULE TraceBase -----------------------------
(* Trace validation skeleton.  A trace module extends this one, instantiates *)
(* the state, and defines TraceInit and TraceNext from Consume.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
Has(r, f) == f \in DOMAIN r
\* names the part of a check that failed
Must(name, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAILS", name>>) /\ FALSE
TraceDone == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================

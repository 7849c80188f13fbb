--------------------------- MODULE ParticleStates ---------------------------
(* Particle states as values: what each setting does to the state it is      *)
(* applied to, that it does nothing to the others, and how energy, momentum  *)
(* and mass of the current type hang together.                               *)
EXTENDS Num
\* a state: [ty, p, d, E, t, l]
Zero3 == <<"0", "0", "0">>
Empty == [ty |-> 0, p |-> Zero3, d |-> Zero3, E |-> "0", t |-> "0", l |-> "0"]
\* defs: the particle types that have a definition, [t, m] each
Known(defs, ty) == \E i \in 1..Len(defs) : defs[i].t = ty
Mass(defs, ty) == LET i == CHOOSE i \in 1..Len(defs) : defs[i].t = ty IN defs[i].m
SameState(a, b) == /\ a.ty = b.ty /\ VEq(a.p, b.p) /\ VEq(a.d, b.d)
                   /\ NEq(a.E, b.E) /\ NEq(a.t, b.t) /\ NEq(a.l, b.l)
(* E^2 = p^2 + m^2, to the precision left by the cancellation               *)
OnShell(E, p, m) == /\ NGe(E, NMul(m, "0.999999999999999")) /\ NGe(p, 0)
                    /\ NClose(NSq(p), NMul(NAdd(E, m), NSub(E, m)), "1e-13", NMul("4e-15", NSq(E)))
(* is s the state a becomes by operation o?  thrown: how the operation ended *)
Makes(defs, o, a, b, s, thrown) ==
  CASE o.k = "default" -> thrown = "" /\ SameState(s, Empty)
    [] o.k = "make"    -> thrown = "" /\ SameState(s, [ty |-> o.ty, p |-> o.p, d |-> o.d, E |-> o.E, t |-> o.t, l |-> o.l])
    [] o.k = "untyped" -> thrown = "" /\ SameState(s, [ty |-> 0, p |-> o.p, d |-> o.d, E |-> o.E, t |-> o.t, l |-> o.l])
    [] o.k = "copy"    -> thrown = "" /\ SameState(s, b)
    [] o.k = "type"    -> thrown = "" /\ SameState(s, [a EXCEPT !.ty = o.v])
    [] o.k = "mom"     -> IF Known(defs, a.ty)
                          THEN thrown = "" /\ OnShell(s.E, o.v, Mass(defs, a.ty)) /\ SameState(s, [a EXCEPT !.E = s.E])
                          ELSE thrown = "invalid_argument" /\ SameState(s, a)
    [] o.k = "E"       -> thrown = "" /\ SameState(s, [a EXCEPT !.E = o.v])
    [] o.k = "t"       -> thrown = "" /\ SameState(s, [a EXCEPT !.t = o.v])
    [] o.k = "l"       -> thrown = "" /\ SameState(s, [a EXCEPT !.l = o.v])
    [] o.k = "p"       -> thrown = "" /\ SameState(s, [a EXCEPT !.p = o.v])
    [] o.k = "d"       -> thrown = "" /\ SameState(s, [a EXCEPT !.d = o.v])
(* what a state answers: its momentum, the definition of its type            *)
Answers(defs, s, q) ==
  /\ IF Known(defs, s.ty)
     THEN /\ q.thrown = "" /\ q.ty = s.ty /\ NEq(q.mass, Mass(defs, s.ty))
          /\ (NGe(s.E, Mass(defs, s.ty)) => OnShell(s.E, q.mom, Mass(defs, s.ty)))
     ELSE q.thrown = "invalid_argument" /\ q.thrown2 = "invalid_argument"
(* losses carry what they were made with                                     *)
StochasticOk(x, y) == /\ x.ty = y.ty /\ x.hash = y.hash /\ VEq(x.p, y.p) /\ VEq(x.d, y.d) /\ NEq(x.E, y.E)
                      /\ NEq(x.t, y.t) /\ NEq(x.l, y.l) /\ NEq(x.parent, y.parent)
ContinuousOk(x, y) == /\ y.ty = 8 /\ VEq(x.p0, y.p0) /\ VEq(x.p1, y.p1) /\ VEq(x.d0, y.d0) /\ VEq(x.d1, y.d1)
                      /\ NEq(x.E, y.E) /\ NEq(x.parent, y.parent) /\ NEq(x.t0, y.t0) /\ NEq(x.t1, y.t1)
=============================================================================

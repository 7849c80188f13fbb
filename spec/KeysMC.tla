------------------------------- MODULE KeysMC -------------------------------
(* Configurations are functions from fields to values; results depend on the  *)
(* fields in dep, keys are made of the fields in keyed.  All pairs (dep,      *)
(* keyed) are explored: answers are right in every history exactly when the   *)
(* key has everything that results depend on, and no less is stored than can  *)
(* be shared.                                                                 *)
EXTENDS Keys
CONSTANTS Fields, Values
VARIABLES dep, keyed
mcvars == <<store, answers, dep, keyed>>
Confs == [Fields -> Values]
On(c, F) == [f \in F |-> c[f]]
Init == KInit /\ dep \in SUBSET Fields /\ keyed \in SUBSET Fields
Next == \E c \in Confs : Ask(c, On(c, keyed), On(c, dep)) /\ UNCHANGED <<dep, keyed>>
Right == \A a \in answers : a[2] = On(a[1], dep)
\* the guarantee
KeyedByAll == dep \subseteq keyed => Right
\* nothing less will do: if a field is missing, two configurations that differ in it get in each other's way
Needed == ~(dep \subseteq keyed) => \A c \in Confs : \E d \in Confs : On(c, keyed) = On(d, keyed) /\ On(c, dep) # On(d, dep)
\* a configuration that was asked is never built again
Found == \A a \in answers : On(a[1], keyed) \in DOMAIN store
\* all who share a key share the answer
Shared == \A a, b \in answers : On(a[1], keyed) = On(b[1], keyed) => a[2] = b[2]
=============================================================================

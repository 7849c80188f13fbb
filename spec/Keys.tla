-------------------------------- MODULE Keys --------------------------------
(* Tables are kept under keys (file names) made of what a configuration       *)
(* consists of.  The store belongs to all configurations that are asked, in   *)
(* whatever order: the first one with a key makes the table, later ones with  *)
(* the same key get it.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES store,   \* key -> table
          answers  \* configurations asked, with what they were given
kvars == <<store, answers>>
EmptyStore == [k \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
KInit == store = EmptyStore /\ answers = {}
\* configuration c, whose key is k, and whose own table would be t
Ask(c, k, t) ==
  LET given == IF k \in DOMAIN store THEN store[k] ELSE t IN
  /\ store' = Put(store, k, given)
  /\ answers' = answers \cup {<<c, given>>}
=============================================================================

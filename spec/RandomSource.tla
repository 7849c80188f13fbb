----------------------------- MODULE RandomSource -----------------------------
(* The source of random numbers.  The default engine is at a place <<root, n>>: *)
(* n draws after the root it was seeded with (root "s<k>" for the seed k, "0"  *)
(* for the state of a fresh process).  An own generator replaces it without    *)
(* moving it.  A library call draws from the current source only.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Seeds, Slots, Owns
VARIABLES place, source, saved, own
\* source: 0 the default engine, k>0 the own generator k; own[k]: its draws so far
RInit == place = <<"0", 0>> /\ source = 0 /\ saved = [s \in Slots |-> << >>] /\ own = [k \in Owns |-> 0]
Seed(s) == place' = <<s, 0>> /\ UNCHANGED <<source, saved, own>>
Advance(n) == IF source = 0 THEN place' = <<place[1], place[2] + n>> /\ UNCHANGED <<source, saved, own>>
              ELSE own' = [own EXCEPT ![source] = @ + n] /\ UNCHANGED <<source, saved, place>>
Save(s) == saved' = [saved EXCEPT ![s] = place] /\ UNCHANGED <<place, source, own>>
Restore(s) == saved[s] # << >> /\ place' = saved[s] /\ UNCHANGED <<source, saved, own>>
Install(k) == source' = k /\ UNCHANGED <<place, saved, own>>
Uninstall == source' = 0 /\ UNCHANGED <<place, saved, own>>
rvars == <<place, source, saved, own>>
(* what must hold in every history                                           *)
OwnLeavesEngine == [][(source # 0 /\ own' # own) => place' = place]_rvars
EngineLeavesOwn == [][(place' # place) => own' = own]_rvars
SavedStays == [][\A s \in Slots : saved'[s] # saved[s] => saved'[s] = place]_rvars
=============================================================================

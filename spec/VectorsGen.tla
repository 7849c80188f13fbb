----------------------------- MODULE VectorsGen -----------------------------
(* Small integer vectors (all octants, axes, planes, zero), pairs of them,   *)
(* and deflection angles including the straight and the backward one.        *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
S == {-2, 0, 1}
Vs == S \X S \X S
Unit == {<<0,0,1>>, <<0,0,-1>>, <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<3,4,0>>, <<-3,0,4>>, <<0,4,-3>>, <<1,2,2>>, <<2,-1,-2>>, <<-2,-2,1>>}
Cos == {-4, -3, 0, 1, 3, 4}      \* quarters
Theta == 0..7                    \* eighths of a turn
ASSUME ndJsonSerialize(IOEnv.OUT,
   SetToSeq({[k |-> "pair", a |-> a, b |-> b, s |-> s] : a \in Vs, b \in Vs, s \in {-3, 0}})
   \o SetToSeq({[k |-> "deflect", v |-> v, c |-> c, t |-> t] : v \in Unit, c \in Cos, t \in Theta}))
Init == x = 0
Next == UNCHANGED x
=============================================================================

----------------------------- MODULE DensityGen -----------------------------
(* Lattice of distributions and rays: axes along and between the coordinate  *)
(* axes (not necessarily unit), rays along, against, across and skew to them,*)
(* starting before, at and behind the reference point.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Axes == {<<1, 0, 0>>, <<0, 0, -1>>, <<0, 2, 0>>, <<3, 4, 0>>}   \* last two: not of unit length
Dirs == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<3, 4, 0>>, <<-3, -4, 0>>, <<4, -3, 0>>, <<1, 2, 2>>, <<-2, 1, 2>>}
Points == {<<0, 0, 0>>, <<5, 0, 0>>, <<-2, 3, 1>>, <<0, -4, 7>>}
Refs == {<<0, 0, 0>>, <<1, -2, 3>>}
Profiles ==
  {[kind |-> "homogeneous", n |-> 0]} \cup {[kind |-> "exponential", n |-> n] : n \in {-10, -3, 4, 20}}
  \cup {[kind |-> "polynomial", n |-> n] : n \in 0..3}
  \cup {[kind |-> k, n |-> n] : k \in {"linear", "cubic"}, n \in 0..2}
ASSUME ndJsonSerialize(IOEnv.OUT,
   SetToSeq({[p |-> p, axis |-> a, ref |-> r, x |-> x, d |-> d, radial |-> FALSE]
               : p \in Profiles, a \in Axes, r \in Refs, x \in Points, d \in Dirs})
   \o SetToSeq({[p |-> p, axis |-> <<1, 0, 0>>, ref |-> r, x |-> x, d |-> x, radial |-> TRUE]
               : p \in Profiles, r \in Refs, x \in Points \ {<<0, 0, 0>>}}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

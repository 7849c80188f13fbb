---------------------------- MODULE GeometryGen ----------------------------
(* The lattice of rays replayed into the code: shapes with small integer     *)
(* measures, integer positions (so that borders, edges, corners, axes and    *)
(* cavities are hit exactly), directions with rational unit vectors.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Centres == {<<0, 0, 0>>, <<1, -2, 3>>}
Shapes ==
  {[kind |-> "box", c |-> c, x |-> m[1], y |-> m[2], z |-> m[3], ri |-> 0, ro |-> 0]
     : c \in Centres, m \in {<<4, 4, 4>>, <<6, 2, 4>>}}
  \cup {[kind |-> "sphere", c |-> c, x |-> 0, y |-> 0, z |-> 0, ri |-> r[1], ro |-> r[2]]
     : c \in Centres, r \in {<<0, 3>>, <<2, 5>>, <<5, 3>>, <<1, 2>>}}
  \cup {[kind |-> "cylinder", c |-> c, x |-> 0, y |-> 0, z |-> h, ri |-> r[1], ro |-> r[2]]
     : c \in Centres, h \in {4, 12}, r \in {<<0, 3>>, <<2, 5>>, <<4, 2>>, <<1, 3>>}}

Offsets == {<<a, b, c>> : a, b, c \in {-7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6}}

Perms3 == {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>}
Base == {<<1,0,0>>, <<3,4,0>>, <<1,2,2>>, <<2,3,6>>, <<1,1,0>>, <<1,1,1>>, <<1,4,8>>, <<5,12,0>>}
Dirs == {<<s[1]*b[p[1]], s[2]*b[p[2]], s[3]*b[p[3]]>> : b \in Base, p \in Perms3, s \in {-1, 1} \X {-1, 1} \X {-1, 1}}

ASSUME ndJsonSerialize(IOEnv.OUT,
         SetToSeq({[t |-> "shape", g |-> s] : s \in Shapes})
         \o SetToSeq({[t |-> "off", v |-> o] : o \in Offsets})
         \o SetToSeq({[t |-> "dir", v |-> d] : d \in Dirs}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

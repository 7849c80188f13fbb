----------------------------- MODULE SectorGen -----------------------------
(* Worlds of one to three overlapping or touching solids on the integer      *)
(* lattice with hierarchies (also equal ones), and every lattice ray in them *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Big == [kind |-> "sphere", c |-> <<0, 0, 0>>, x |-> 0, y |-> 0, z |-> 0, ri |-> 0, ro |-> 20]
Bx(cx, sx) == [kind |-> "box", c |-> <<cx, 0, 0>>, x |-> sx, y |-> 4, z |-> 4, ri |-> 0, ro |-> 0]
Pool == << Big, Bx(0, 4), Bx(2, 4), Bx(-2, 4), Bx(3, 2),
           [kind |-> "sphere", c |-> <<0, 0, 0>>, x |-> 0, y |-> 0, z |-> 0, ri |-> 0, ro |-> 2],
           [kind |-> "sphere", c |-> <<0, 0, 0>>, x |-> 0, y |-> 0, z |-> 0, ri |-> 1, ro |-> 3],
           [kind |-> "cylinder", c |-> <<1, 0, 0>>, x |-> 0, y |-> 0, z |-> 2, ri |-> 0, ro |-> 2],
           [kind |-> "cylinder", c |-> <<0, 0, 0>>, x |-> 0, y |-> 0, z |-> 4, ri |-> 1, ro |-> 2] >>
N == Len(Pool)
\* world number k: three members, hierarchies 0..2
World(k) == LET a == k % N
                b == (k \div N) % N
                c == (k \div (N * N)) % N
                h == k \div (N * N * N) IN
  << [g |-> Pool[a + 1], h |-> h % 3], [g |-> Pool[b + 1], h |-> (h \div 3) % 3], [g |-> Pool[c + 1], h |-> (h \div 9) % 3] >>
Total == N * N * N * 27
Count == IF "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough" THEN 600 ELSE 60
Worlds == [i \in 1..Count |-> World((i * 3301 + Seed * 7177) % Total)]
Ps == {<<x, y, z>> : x \in -4..5, y \in {0, 1, 2}, z \in {0, -2}}
Ds == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>, <<3, 4, 0>>, <<-2, 1, 2>>}
Rays == SetToSeq(Ps \X Ds)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> [t |-> "world", w |-> Worlds[i]]]
         \o [i \in 1..Len(Rays) |-> [t |-> "ray", p |-> Rays[i][1], d |-> Rays[i][2]]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

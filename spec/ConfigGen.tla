----------------------------- MODULE ConfigGen -----------------------------
(* Documents: every placement of every setting (global, sector, both, none), *)
(* alone and with a second sector, and the incomplete ones.                  *)
EXTENDS Sectors, SequencesExt, Json, IOUtils, TLC, FiniteSets
Val(k, i) == \* two values per setting
  CASE k = "medium" -> <<"water", "iron">>[i]
    [] k = "cuts" -> << [e_cut |-> 400, v_cut |-> 1, cont_rand |-> FALSE], [e_cut |-> 20, v_cut |-> 1, cont_rand |-> TRUE] >>[i]
    [] k = "exact_time" -> <<FALSE, TRUE>>[i]
    [] k = "do_interpolation" -> <<FALSE, TRUE>>[i]
    [] k = "scattering" -> << [multiple_scattering |-> "noscattering"], [multiple_scattering |-> "highland"] >>[i]
    [] k = "density_distribution" -> << [type |-> "homogeneous", mass_density |-> 2], [type |-> "homogeneous", mass_density |-> 7] >>[i]
    [] k = "CrossSections" -> << [ioniz |-> [parametrization |-> "BetheBlochRossi"]],
                                 [ioniz |-> [parametrization |-> "BetheBlochRossi"], brems |-> [parametrization |-> "KelnerKokoulinPetrukhin", lpm |-> FALSE]] >>[i]
Ball(r, h) == [shape |-> "sphere", origin |-> <<0, 0, 0>>, outer_radius |-> r, hierarchy |-> h]
Plain(r) == [shape |-> "sphere", origin |-> <<0, 0, 0>>, outer_radius |-> r]
Geo(q) == CASE q = 1 -> << Ball(1000, 0) >> [] q = 2 -> << Ball(30, 2), Ball(1000, 0) >> [] q = 3 -> << Ball(30, 0) >> [] OTHER -> << Plain(1000) >>
\* settings given by function f : Keys -> {0, 1, 2}
Put(f) == [k \in {x \in Keys : f[x] # 0} |-> Val(k, f[k])]
Sec(f, geo) == Put(f) @@ [geometries |-> geo]
At0 == [k \in Keys |-> 0]
At1 == [k \in Keys |-> 1]
At2 == [[k \in Keys |-> 2] EXCEPT !.do_interpolation = 1]
With(f, k, i) == [f EXCEPT ![k] = i]
Doc(g, ss) == [global |-> Put(g), sectors |-> ss]
Single == {Doc(With(IF base = 0 THEN At1 ELSE At0, k, gi), << Sec(With(IF base = 0 THEN At0 ELSE At2, k, si), Geo(1 + ((gi + si) % 2))) >>) :
             base \in {0, 1}, k \in Keys, gi \in {0, 1, 2}, si \in {0, 1, 2}}
\* the inner sector sets k by itself, the outer one takes it from above, in both orders
Double == {Doc(With(At1, k, 1), IF o = 0 THEN << Sec(With(At0, k, 2), << Ball(30, 1) >>), Sec(At0, Geo(1)) >>
                                ELSE << Sec(At0, Geo(1)), Sec(With(At0, k, 2), << Ball(30, 1) >>) >>) : k \in Keys, o \in {0, 1}}
\* equal hierarchies: the first one wins
Ties == {Doc(At1, IF o = 0 THEN << Sec(With(At0, "medium", 2), Geo(3)), Sec(At0, Geo(4)) >> ELSE << Sec(At0, Geo(4)), Sec(With(At0, "medium", 2), Geo(3)) >>) : o \in {0, 1}}
NoGlobal == {[sectors |-> << Sec(At2, Geo(2)) >>], [sectors |-> << Sec(With(At2, "medium", 0), Geo(1)) >>], [sectors |-> << Sec(With(At2, "cuts", 0), Geo(1)) >>]}
            \cup {[sectors |-> << Sec(With(IF base = 1 THEN At1 ELSE At2, k, 0), Geo(1)) >>] : k \in Keys \ Mandatory, base \in {1, 2}}
Broken == {[global |-> Put(At1)], [global |-> Put(At1), sectors |-> << Put(At1) >>],
           [global |-> Put(At1), sectors |-> << Sec(At2, Geo(1)), Put(At1) >>]}
Docs == SetToSeq({d \in Single \cup Double \cup Ties \cup NoGlobal \cup Broken : Complete(d) => \A i \in 1..Len(Meaning(d).sectors) : Meaning(d).sectors[i].set["CrossSections"] # << >>})
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Docs) |-> [doc |-> Docs[i], means |-> Meaning(Docs[i])]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

----------------------------- MODULE ProcessGen -----------------------------
(* Documents which name one process each, beside the one which slows the     *)
(* particle down; and what kind of interaction that process makes.           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
P(name) == [parametrization |-> name]
Times(r, m) == r @@ [multiplier |-> m]
\* key, particle, settings, energy, least energy (as a part), greatest distance, number of the interaction
Rows == <<
  <<"annihilation", "e+", Times(P("Heitler"), 50), "100", "0.5", "1e6", 12, "3">>,
  <<"brems", "e-", P("ElectronScreening") @@ [lpm |-> TRUE], "1e6", "0.1", "1e9", 2, "3000">>,
  <<"brems", "mu-", Times(P("PetrukhinShestakov") @@ [lpm |-> FALSE], 10), "1e5", "0.5", "1e9", 2, "3">>,
  <<"compton", "gamma", P("KleinNishina"), "5", "0.3", "1e6", 10, "3">>,
  <<"ioniz", "mu+", Times(P("BetheBlochRossi"), 2), "1e5", "0.8", "1e9", 3, "3">>,
  <<"ioniz", "e-", P("BergerSeltzerMoller"), "1e5", "0.8", "1e9", 3, "3">>,
  <<"photo", "mu-", Times(P("BezrukovBugaev") @@ [hard_component |-> FALSE, of |-> "real"], 100), "1e5", "0.5", "1e9", 5, "3">>,
  <<"photoeffect", "gamma", P("Sauter"), "0.05", "0.5", "1e6", 16, "3">>,
  <<"photomupair", "gamma", Times(P("BurkhardtKelnerKokoulin"), 1000000), "1e4", "0.5", "1e6", 15, "3">>,
  <<"photoproduction", "gamma", Times(P("Zeus"), 1000), "1e4", "0.5", "1e6", 14, "3">>,
  <<"photopair", "gamma", P("Tsai") @@ [lpm |-> TRUE], "1e4", "0.5", "1e6", 13, "300000">>,
  <<"weak", "mu+", Times(P("CooperSarkarMertsch"), 100000000), "1e7", "0.5", "1e9", 9, "3">> >> \o (IF "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough" THEN <<
  \* integrals of integrals
  <<"photo", "mu-", Times(P("AbramowiczLevinLevyMaor97") @@ [shadow |-> "DuttaRenoSarcevicSeckel", of |-> "virtual"], 10), "1e6", "0.9", "1e9", 5, "3">>,
  <<"mupair", "mu-", Times(P("KelnerKokoulinPetrukhin"), 1000), "1e6", "0.9", "1e9", 6, "3">>,
  <<"epair", "e-", Times(P("ForElectronPositron") @@ [lpm |-> TRUE], 10), "1e6", "0.9", "1e9", 4, "3">> >> ELSE << >>)
Slower(key, p) == CASE p = "gamma" -> [compton |-> P("KleinNishina")] [] p = "e+" -> [ioniz |-> P("BergerSeltzerBhabha")] [] p = "e-" -> [ioniz |-> P("BergerSeltzerMoller")] [] OTHER -> [ioniz |-> P("BetheBlochRossi")]
Doc(r) == [global |-> [medium |-> "water", exact_time |-> FALSE, do_interpolation |-> FALSE, cuts |-> [e_cut |-> "50", v_cut |-> "0.05", cont_rand |-> FALSE],
                       density_distribution |-> [type |-> "homogeneous", mass_density |-> r[8]], CrossSections |-> (r[1] :> r[3]) @@ Slower(r[1], r[2])],
           sectors |-> << [geometries |-> << [shape |-> "sphere", origin |-> <<0, 0, 0>>, outer_radius |-> 100000000] >>] >>]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Rows) |-> LET r == Rows[i] IN [key |-> r[1], particle |-> r[2], doc |-> Doc(r), E |-> r[4], min |-> r[5], max |-> r[6], makes |-> r[7]]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

------------------------------ MODULE KeysGen ------------------------------
\* every process and parametrization, with up to Length of the choices that can be varied
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Length
VARIABLE done
Upto(S, n) == IF n = 0 THEN {{}} ELSE IF n = 1 THEN {{}} \cup { {x} : x \in S } ELSE {{}} \cup { {x, y} : x \in S, y \in S }
Cuts == {"ecut", "vcut", "rand", "nocut", "allcut"}
Bodies == {"mass", "lifetime", "low", "charge", "type", "partner", "particlename"}
Media == {"density", "Z", "A", "atoms", "order", "third", "mediumname"}
Details == {"I", "C", "a", "m", "X0", "X1", "d0"}
Tables == {"nodes_dedx", "nodes_de2dx", "nodes_e", "nodes_v", "upper"}
Brems == {"KelnerKokoulinPetrukhin", "PetrukhinShestakov", "CompleteScreening", "AndreevBezrukovBugaev", "SandrockSoedingreksoRhode", "ElectronScreening"}
Epair == {"KelnerKokoulinPetrukhin", "SandrockSoedingreksoRhode", "ForElectronPositron"}
Q2 == {"AbramowiczLevinLevyMaor91", "AbramowiczLevinLevyMaor97", "ButkevichMikheyev", "RenoSarcevicSu", "AbtFT", "BlockDurandHa"}
Real == {"Zeus", "BezrukovBugaev", "Kokoulin", "Rhode"}
Photoproduction == {"Zeus", "BezrukovBugaev", "Caldwell", "Kokoulin", "Rhode", "Heck"}
Lpm == {{}, {"lpm"}, {"lpm", "density_correction"}, {"lpm", "density"}}
Plus(S, b) == { x \cup y : x \in S, y \in b }
Case(k, n, t, vs) == [kind |-> k, name |-> n, table |-> t, vars |-> SetToSeq(vs)]
\* without cuts there is nothing stochastic to tabulate
Both(k, n, V) == { Case(k, n, FALSE, v) : v \in V } \cup { Case(k, n, TRUE, v) : v \in { w \in V : "nocut" \notin w } }
Table(k, n, V) == { Case(k, n, TRUE, v) : v \in V }
Integral(k, n, V) == { Case(k, n, FALSE, v) : v \in V }
One(S) == Upto(S, Length)
Common == Cuts \cup Bodies \cup Media \cup {"multiplier"}
Cases ==
  UNION { Both("brems", n, One(Common \cup (IF n = "KelnerKokoulinPetrukhin" THEN Tables ELSE {})) \cup Plus(Lpm, One({"mass", "charge", "density", "vcut"}))) : n \in Brems \ {"ElectronScreening"} }
  \cup Integral("brems", "ElectronScreening", One(Common) \cup Lpm)
  \cup UNION { Both("ioniz", n, One(Common \cup Details \cup Tables)) : n \in {"BetheBlochRossi", "BergerSeltzerBhabha", "BergerSeltzerMoller"} }
  \cup Both("compton", "KleinNishina", One(Common \cup Tables))
  \cup UNION { Integral("epair", n, Upto({"mass", "charge", "density", "Z", "atoms", "vcut", "rand", "multiplier"}, 1) \cup Lpm) : n \in Epair }
  \cup Integral("mupair", "KelnerKokoulinPetrukhin", Upto({"mass", "charge", "Z", "A", "atoms", "vcut", "rand", "multiplier"}, 1))
  \cup UNION { Integral("q2", n, Plus(One({"mass", "Z", "A", "vcut", "charge"}), {{}, {"shadow"}})) : n \in Q2 }
  \cup UNION { Integral("real", n, One(Common) \cup Plus(One({"mass", "Z", "vcut"}), {{"hard"}, {"hardtable"}, {"nohardtable"}})) : n \in Real }
  \cup UNION { Integral("photopair", n, One({"density", "Z", "A", "atoms", "order", "third", "multiplier"}) \cup Lpm) : n \in {"Tsai", "KochMotz"} }
  \cup Integral("photomupair", "BurkhardtKelnerKokoulin", One({"Z", "A", "atoms", "multiplier"}))
  \cup Integral("weak", "CooperSarkarMertsch", One(Bodies \cup Media \cup {"multiplier"}))
  \cup Integral("annihilation", "Heitler", One(Bodies \cup Media \cup {"multiplier"}))
  \cup Integral("photoeffect", "Sauter", One(Media \cup {"multiplier"}))
  \cup UNION { Integral("photoproduction", n, One(Media \cup {"multiplier"})) : n \in Photoproduction }
  \cup UNION { Table("utility", n, One({"mass", "lifetime", "charge", "Z", "atoms", "density", "I", "ecut", "vcut", "multiplier", "param", "swapped", "nodes_utility", "nodes_rate", "upper", "othermass", "othercross", "otherdisp"})) : n \in {"displacement", "interaction", "time", "decay", "contrand"} }
  \cup UNION { Integral("utility", n, One({"mass", "vcut", "multiplier", "othermass", "othercross"})) : n \in {"displacement", "time", "decay"} }
  \cup Integral("definition", "one", Upto({"nodes", "xmin", "xmax", "romberg", "rational", "log", "rombergY", "logy"}, 2))
  \cup Integral("definition", "two", Upto({"nodes", "xmin", "xmax", "romberg", "log", "rombergY", "logy", "nodes2", "x2min", "x2max", "romberg2", "rational2", "log2"}, Length))
  \cup Table("secondaries", "weak", One({"mass", "charge", "Z", "A", "atoms", "order", "third", "nodes_e", "nodes_v", "upper", "partner"}))
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================

----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* What configuration documents mean.                                      *)
(*                                                                         *)
(* A document is a function from keys to values; a value [t, s, a] has the *)
(* type t (num, int, str, bool, null, arr, obj), the text s and, if it is  *)
(* an array, the elements a.  Its meaning is [ok |-> TRUE, v |-> list] -   *)
(* the list names the object and its parameters - or a refusal.            *)
(***************************************************************************)
EXTENDS Num, TLC
Val(t, s) == [t |-> t, s |-> s, a |-> << >>]
N(s) == Val("num", s)
I(s) == Val("int", s)
S(s) == Val("str", s)
B(s) == Val("bool", s)
Null == Val("null", "")
A(q) == [t |-> "arr", s |-> "", a |-> q]
Refused == [ok |-> FALSE, v |-> << >>]
Means(v) == [ok |-> TRUE, v |-> v]
Key(d, k) == k \in DOMAIN d
Num(v) == v.t \in {"num", "int"}
Is(d, k, t) == Key(d, k) /\ d[k].t = t
NumAt(d, k) == Key(d, k) /\ Num(d[k])
MayNum(d, k) == ~Key(d, k) \/ Num(d[k])
May(d, k, t) == ~Key(d, k) \/ d[k].t = t
Or(d, k, default) == IF Key(d, k) THEN d[k].s ELSE default
IsVec(v) == v.t = "arr" /\ Len(v.a) = 3 /\ \A i \in 1..3 : Num(v.a[i])
VecAt(d, k) == Key(d, k) /\ IsVec(d[k])
Texts(v) == [i \in 1..Len(v.a) |-> v.a[i].s]
Nums(v) == v.t = "arr" /\ \A i \in 1..Len(v.a) : Num(v.a[i])
(* ------------------------------------------------------------- the kinds *)
Vector(d) == IF VecAt(d, "v") THEN Means(Texts(d["v"])) ELSE Refused

Cuts(d) ==
  IF ~(Key(d, "e_cut") /\ NumAt(d, "v_cut") /\ Is(d, "cont_rand", "bool")) THEN Refused
  ELSE LET e == d["e_cut"]  endless == e.t = "str" /\ SLower(e.s) \in {"inf", "infinity"}  v == d["v_cut"].s IN
  IF ~(endless \/ (Num(e) /\ NGt(e.s, 0))) \/ NLe(v, 0) \/ NGt(v, 1) THEN Refused
  ELSE Means(<<IF endless THEN "inf" ELSE e.s, v, d["cont_rand"].s>>)

Shape(d) ==
  IF ~(Is(d, "shape", "str") /\ VecAt(d, "origin") /\ May(d, "hierarchy", "int")) THEN Refused
  ELSE LET h == Texts(d["origin"]) \o <<Or(d, "hierarchy", "0")>>  shape == SLower(d["shape"].s)
           Hollow == NumAt(d, "outer_radius") /\ MayNum(d, "inner_radius") /\ NGe(Or(d, "inner_radius", "0"), 0) /\ NGt(d["outer_radius"].s, Or(d, "inner_radius", "0"))
           Size(k) == NumAt(d, k) /\ NGt(d[k].s, 0) IN
  CASE shape = "sphere" -> IF Hollow THEN Means(<<"Sphere">> \o h \o <<d["outer_radius"].s, Or(d, "inner_radius", "0")>>) ELSE Refused
    [] shape = "cylinder" -> IF Hollow /\ Size("height") THEN Means(<<"Cylinder">> \o h \o <<d["outer_radius"].s, Or(d, "inner_radius", "0"), d["height"].s>>) ELSE Refused
    [] shape = "box" -> IF Size("length") /\ Size("width") /\ Size("height") THEN Means(<<"Box">> \o h \o <<d["length"].s, d["width"].s, d["height"].s>>) ELSE Refused
    [] OTHER -> Refused

DensityOf(d) ==
  LET type == IF Is(d, "type", "str") THEN d["type"].s ELSE ""
      Axis == Is(d, "axis_type", "str") /\ VecAt(d, "fp0") /\ (d["axis_type"].s = "radial" \/ (d["axis_type"].s = "cartesian" /\ VecAt(d, "fAxis")))
      frame == <<d["mass_density"].s, d["axis_type"].s>> \o Texts(d["fp0"]) \o (IF d["axis_type"].s = "cartesian" THEN Texts(d["fAxis"]) ELSE <<"0", "0", "0">>)
      Points == Key(d, "x") /\ Key(d, "y") /\ Nums(d["x"]) /\ Nums(d["y"]) /\ Len(d["x"].a) = Len(d["y"].a) /\ Len(d["x"].a) >= 2 IN
  IF ~NumAt(d, "mass_density") THEN Refused
  ELSE CASE type = "homogeneous" -> Means(<<type, d["mass_density"].s>>)
    [] type = "exponential" -> IF Axis /\ MayNum(d, "sigma") /\ MayNum(d, "d0") THEN Means(<<type>> \o frame \o <<Or(d, "sigma", "1"), Or(d, "d0", "0")>>) ELSE Refused
    [] type = "polynomial" -> IF Axis /\ Key(d, "coefficients") /\ Nums(d["coefficients"]) /\ Len(d["coefficients"].a) > 0 THEN Means(<<type>> \o frame \o Texts(d["coefficients"])) ELSE Refused
    [] type = "spline" -> IF Axis /\ Points /\ Is(d, "spline_type", "str") /\ d["spline_type"].s \in {"linear", "cubic"}
                          THEN Means(<<d["spline_type"].s>> \o frame \o Texts(d["x"]) \o Texts(d["y"])) ELSE Refused
    [] OTHER -> Refused

(* documented names, and what they stand for *)
Media == [water |-> "PDG2020::Water", waterpdg2001 |-> "PDG2001::Water", waterpdg2020 |-> "PDG2020::Water", ice |-> "PDG2020::Ice", icepdg2001 |-> "PDG2001::Ice", icepdg2020 |-> "PDG2020::Ice",
  salt |-> "Salt", standardrock |-> "StandardRock", frejusrock |-> "FrejusRock", iron |-> "Iron", hydrogen |-> "Hydrogen", lead |-> "Lead", copper |-> "Copper", uranium |-> "Uranium", air |-> "Air",
  paraffin |-> "Paraffin", antareswater |-> "AntaresWater", cascadiabasinwater |-> "CascadiaBasinWater", liquidargon |-> "LiquidArgon"]
Medium(d) == LET n == SLower(d["name"].s) IN IF n \in DOMAIN Media THEN Means(<<Media[n]>>) ELSE Refused

Names(kind) ==
  CASE kind = "annihilation" -> {"Heitler"} [] kind = "compton" -> {"KleinNishina"} [] kind = "photoeffect" -> {"Sauter"} [] kind = "weak" -> {"CooperSarkarMertsch"}
    [] kind = "brems" -> {"KelnerKokoulinPetrukhin", "AndreevBezrukovBugaev", "PetrukhinShestakov", "CompleteScreening", "SandrockSoedingreksoRhode", "ElectronScreening"}
    [] kind = "epair" -> {"KelnerKokoulinPetrukhin", "SandrockSoedingreksoRhode", "ForElectronPositron"} [] kind = "ioniz" -> {"BetheBlochRossi", "BergerSeltzerBhabha", "BergerSeltzerMoller"}
    [] kind = "mupair" -> {"KelnerKokoulinPetrukhin"} [] kind = "photopair" -> {"Tsai", "KochMotz"} [] kind = "photomupair" -> {"BurkhardtKelnerKokoulin"}
    [] kind = "real" -> {"Zeus", "BezrukovBugaev", "Kokoulin", "Rhode"}
    [] kind = "q2" -> {"AbramowiczLevinLevyMaor91", "AbramowiczLevinLevyMaor97", "ButkevichMikheyev", "RenoSarcevicSu", "AbtFT", "BlockDurandHa"}
    [] kind = "photoproduction" -> {"Zeus", "BezrukovBugaev", "Caldwell", "Kokoulin", "Rhode", "Heck", "HeckC7Shadowing"}
Processes == {"annihilation", "compton", "photoeffect", "weak", "brems", "epair", "ioniz", "mupair", "photopair", "photomupair", "real", "q2", "photoproduction"}
Lpm(kind) == kind \in {"brems", "epair", "photopair"}
Shadows == {"ButkevichMikheyev", "DuttaRenoSarcevicSeckel"}
Same(a, b) == SLower(a) = SLower(b)
Process(kind, d) ==
  LET fits == {n \in Names(kind) : Is(d, "parametrization", "str") /\ Same(n, d["parametrization"].s)}
      shadows == {n \in Shadows : Same(n, Or(d, "shadow", "ButkevichMikheyev"))} IN
  IF fits = {} \/ ~MayNum(d, "multiplier") \/ (Lpm(kind) /\ ~May(d, "lpm", "bool")) \/ (kind = "real" /\ ~May(d, "hard_component", "bool")) \/ (kind = "q2" /\ (~May(d, "shadow", "str") \/ shadows = {})) THEN Refused
  ELSE Means(<<kind, CHOOSE n \in fits : TRUE, Or(d, "multiplier", "1"),
               IF Lpm(kind) THEN Or(d, "lpm", "true") ELSE IF kind = "real" THEN Or(d, "hard_component", "true") ELSE IF kind = "q2" THEN CHOOSE n \in shadows : TRUE ELSE "">>)

Meaning(kind, d) ==
  CASE kind \in {"cartesian", "spherical"} -> Vector(d) [] kind = "cuts" -> Cuts(d) [] kind = "geometry" -> Shape(d) [] kind = "density" -> DensityOf(d)
    [] kind = "medium" -> Medium(d) [] OTHER -> Process(kind, d)
(* --------------------------------------------------- documents being edited *)
Defaults(kind) ==
  CASE kind = "geometry" -> [hierarchy |-> I("0"), inner_radius |-> N("0")] [] kind = "density" -> [sigma |-> N("1"), d0 |-> N("0")]
    [] kind \in Processes -> [multiplier |-> N("1"), lpm |-> B("true"), hard_component |-> B("true"), shadow |-> S("butkevichmikheyev")] [] OTHER -> << >>
Bases(kind) ==
  LET o == A(<<N("1.5"), I("-2"), N("1e3")>>)  f == A(<<I("0"), I("0"), I("1")>>)  axis == [axis_type |-> S("cartesian"), fp0 |-> o, fAxis |-> f, mass_density |-> N("0.75")] IN
  CASE kind \in {"cartesian", "spherical"} -> {[v |-> o]}
    [] kind = "cuts" -> {[e_cut |-> N("500"), v_cut |-> N("0.05"), cont_rand |-> B("true")]}
    [] kind = "geometry" -> {[shape |-> S("sphere"), origin |-> o, outer_radius |-> N("7.5"), inner_radius |-> N("2.25")], [shape |-> S("box"), origin |-> o, hierarchy |-> I("3"), length |-> N("1.5"), width |-> N("2.5"), height |-> N("3.5")],
                             [shape |-> S("cylinder"), origin |-> o, hierarchy |-> I("2"), outer_radius |-> N("7.5"), inner_radius |-> N("0.25"), height |-> N("3.5")]}
    [] kind = "density" -> {[type |-> S("homogeneous"), mass_density |-> N("2.5")], axis @@ [type |-> S("exponential"), sigma |-> N("-2.5"), d0 |-> N("0.5")], axis @@ [type |-> S("polynomial"), coefficients |-> A(<<N("1"), N("0.25"), N("0.125")>>)],
                            axis @@ [type |-> S("spline"), spline_type |-> S("linear"), x |-> A(<<I("-1"), N("0.5"), I("3")>>), y |-> A(<<N("1"), N("2.5"), N("1.5")>>)]}
    [] kind = "medium" -> {[name |-> S(n)] : n \in DOMAIN Media}
    [] OTHER -> {[parametrization |-> S(n)] : n \in Names(kind)}
\* values to try for a key
Odd == {N("2.5"), N("-1.5"), S("2"), B("true"), Null, A(<< >>)}
Arrays == {A(<<N("1"), N("2")>>), A(<<N("0.5")>>), A(<<N("1"), S("2"), N("3")>>), A(<<N("1"), N("2"), N("3"), N("4")>>), A(<<N("3"), I("1"), I("0")>>)}
Pool(kind, k) ==
  CASE k = "e_cut" -> Odd \cup {S("inf"), S("INFINITY"), S("Inf"), S("infinite"), I("0"), I("10")} [] k = "v_cut" -> Odd \cup {N("1"), I("1"), N("1.0000001"), I("0"), N("1e-9")} [] k = "cont_rand" -> Odd \cup {B("false"), S("true"), I("1")}
    [] k = "shape" -> Odd \cup {S("Sphere"), S("BOX"), S("cYlinder"), S("box"), S("sphere"), S("cylinder"), S("cone"), S("")} [] k = "hierarchy" -> {I("0"), I("7"), S("1"), Null, A(<< >>)}
    [] k \in {"origin", "fp0", "fAxis", "v", "coefficients", "x", "y"} -> Odd \cup Arrays [] k = "inner_radius" -> Odd \cup {I("1"), I("9"), N("0.75")}
    [] k = "type" -> Odd \cup {S("homogeneous"), S("exponential"), S("polynomial"), S("spline"), S("splines"), S("Exponential")} [] k = "axis_type" -> Odd \cup {S("radial"), S("cartesian"), S("spherical")}
    [] k = "spline_type" -> Odd \cup {S("linear"), S("cubic"), S("quadratic")} [] k = "sigma" -> Odd \cup {N("0.5")}
    [] k = "name" -> {S(n) : n \in {"Water", "ICE", "StandardRock", "AntaresWater", "rock", "", "water ", "PDG2020::Water", "LiquidArgon", "WaterPDG2001", "IcePDG2001", "CascadiaBasinWater"}}
    [] k = "parametrization" -> Odd \cup {S(""), S("None"), S("BremsKelnerKokoulinPetrukhin")} \cup (IF kind \in Processes THEN {S(SLower(n)) : n \in Names(kind)} \cup {S("Zeus"), S("Heitler")} ELSE {})
    [] k = "lpm" \/ k = "hard_component" -> Odd \cup {B("false"), S("false"), I("0")} [] k = "shadow" -> Odd \cup {S("DuttaRenoSarcevicSeckel"), S("dUTTARenoSarcevicSeckel"), S("None")}
    [] OTHER -> Odd
KeysOf(kind) ==
  CASE kind = "cuts" -> {"e_cut", "v_cut", "cont_rand"} [] kind = "geometry" -> {"shape", "origin", "hierarchy", "outer_radius", "inner_radius", "length", "width", "height"}
    [] kind = "density" -> {"type", "mass_density", "axis_type", "fp0", "fAxis", "sigma", "d0", "coefficients", "spline_type", "x", "y"} [] kind \in {"cartesian", "spherical"} -> {"v"}
    [] kind = "medium" -> {"name"} [] kind = "q2" -> {"parametrization", "multiplier", "shadow"} [] kind = "real" -> {"parametrization", "multiplier", "hard_component"} [] kind \in {"brems", "epair", "photopair"} -> {"parametrization", "multiplier", "lpm"}
    [] OTHER -> {"parametrization", "multiplier", "lpm"}
Set(d, k, v) == [x \in DOMAIN d \cup {k} |-> IF x = k THEN v ELSE d[x]]
Drop(d, k) == [x \in DOMAIN d \ {k} |-> d[x]]
Edits(kind, d) == {Set(d, k, v) : <<k, v>> \in UNION {{k} \X Pool(kind, k) : k \in KeysOf(kind)}} \cup (IF kind \in {"medium", "cartesian", "spherical"} THEN {} ELSE {Drop(d, k) : k \in DOMAIN d} \cup {Set(d, "comment", S("none"))})
Kinds == {"cartesian", "spherical", "cuts", "geometry", "density", "medium"} \cup Processes
=============================================================================

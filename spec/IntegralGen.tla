----------------------------- MODULE IntegralGen ----------------------------
(* All ordered pairs of calls, on one object, its copies and assigned ones:  *)
(* whatever one call leaves behind can meet every other call.                *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
VARIABLE x
C(min, max, fam, par, method, pos) == [min |-> min, max |-> max, fam |-> fam, par |-> par, method |-> method, pos |-> pos, kind |-> "req"]
R(c, r) == [min |-> c.min, max |-> c.max, fam |-> c.fam, par |-> c.par, method |-> c.method, pos |-> c.pos, kind |-> "req", ratio |-> r]
Ints == <<
  C("1", "4", "pow", <<"2", "2">>, 1, "0"),      C("4", "1", "exp", <<"1", "-0.5">>, 1, "0"),
  C("0", "3", "sin", <<"2", "1">>, 2, "0"),      C("-2", "5", "lin", <<"1", "3">>, 2, "0"),
  C("7", "-1", "lin", <<"-2", "0.5">>, 2, "0"),
  C("1", "100", "pow", <<"1", "-2">>, 3, "1"),   C("50", "2", "pow", <<"3", "-3">>, 3, "2"),
  C("2", "0", "pow", <<"1", "-3">>, 3, "1"),     C("-9", "-1", "lin", <<"1", "1">>, 3, "-1"),
  C("1", "1000", "pow", <<"1", "-1.5">>, 4, "0"), C("300", "0.5", "pow", <<"-4", "-1">>, 4, "0"),
  C("2", "40", "pow", <<"1", "-2">>, 5, "1"),    C("40", "2", "pow", <<"1", "-1">>, 5, "0"),
  C("0", "0", "lin", <<"1", "1">>, 2, "0"),      C("3", "3", "lin", <<"1", "1">>, 1, "0"),
  C("0", "0", "lin", <<"1", "1">>, 4, "0") >>
Rats == <<
  R(C("1", "4", "pow", <<"2", "2">>, 3, "0"), "0.3"),      R(C("4", "1", "exp", <<"1", "-0.5">>, 3, "0"), "0.7"),
  R(C("1", "100", "pow", <<"1", "-2">>, 3, "1"), "0.25"),  R(C("50", "2", "pow", <<"3", "-3">>, 3, "2"), "0.9"),
  R(C("2", "0", "pow", <<"1", "-3">>, 3, "1"), "0.5"),     R(C("0", "2", "pow", <<"1", "-3">>, 3, "1"), "0.4"),
  R(C("-9", "-1", "pow", <<"2", "2">>, 3, "-1"), "0.6"),
  R(C("1", "1000", "pow", <<"1", "-1.5">>, 4, "0"), "0.001"), R(C("300", "0.5", "pow", <<"4", "-1">>, 4, "0"), "0.35"),
  R(C("300", "0.5", "pow", <<"-4", "0.5">>, 4, "0"), "-100"), R(C("1", "9", "pow", <<"5", "1">>, 4, "0"), "-42"),
  R(C("2", "8", "lin", <<"1", "1">>, 3, "0"), "-11"),      R(C("8", "2", "lin", <<"1", "1">>, 3, "0"), "-11"),
  R(C("8", "2", "lin", <<"1", "1">>, 3, "0"), "0"),        R(C("1", "5", "pow", <<"1", "1">>, 4, "0"), "1"),
  R(C("0", "0", "lin", <<"1", "1">>, 3, "0"), "0.5"),      R(C("3", "3", "lin", <<"1", "1">>, 4, "0"), "0.5"),
  R(C("1", "5", "pow", <<"1", "1">>, 4, "0"), "-1000") >>
New(o) == [e |-> "new", o |-> o, prec |-> "1e-6"]
I(o, c) == [e |-> "int", o |-> o, c |-> c]
Q(o, c) == [e |-> "rat", o |-> o, c |-> c]
U(o) == [e |-> "up", o |-> o]
Cp(o, to, how) == [e |-> "copy", o |-> o, to |-> to, how |-> how]
Behaviours ==
  [k \in 1 .. Len(Rats) |-> << New(1), U(1), Q(1, Rats[k]), U(1), U(1) >>]
  \o [k \in 1 .. Len(Rats) * Len(Rats) |-> LET a == Rats[((k - 1) \div Len(Rats)) + 1] b == Rats[((k - 1) % Len(Rats)) + 1] IN
        << New(1), Q(1, a), Cp(1, 2, IF k % 2 = 0 THEN "copy" ELSE "assign"), Q(1, b), U(2), U(1), Q(2, b), U(2) >>]
  \o [k \in 1 .. Len(Rats) * Len(Ints) |-> LET a == Rats[((k - 1) \div Len(Ints)) + 1] b == Ints[((k - 1) % Len(Ints)) + 1] IN
        << New(1), Q(1, a), Cp(1, 2, IF k % 2 = 0 THEN "assign" ELSE "copy"), I(1, b), U(1), U(2), I(2, b), Q(1, a), I(2, Ints[1 + (k % Len(Ints))]), U(1) >>]
ASSUME ndJsonSerialize(IOEnv.OUT, Behaviours)
Init == x = 0
Next == UNCHANGED x
=============================================================================

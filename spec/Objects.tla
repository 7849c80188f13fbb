------------------------------- MODULE Objects -------------------------------
(* Objects with value semantics: what they are is given by the kind, the      *)
(* parameters they were made with or were set later, and the transformations  *)
(* applied to them.                                                           *)
EXTENDS Num, Sequences, FiniteSets
VARIABLES objs,     \* slot -> [fam, kind, par, ops]
          memo      \* what is known about the behaviour of values
(* a shell given with the radii in the wrong order is the same shell          *)
Swapped(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
MadeOf(kind, par) == IF kind \in {"sphere", "cylinder"} /\ NLt(par[4], par[5]) THEN Swapped(par, 4, 5) ELSE par
Value(o) == <<o.kind, o.par, o.ops>>
\* the library decides what it cannot know: whether different transformations
\* lead to the same
MayEqual(a, b) == a.kind = b.kind /\ (a.par = b.par => a.ops = b.ops) /\ (a.par # b.par => a.ops # << >> \/ b.ops # << >>)
MustEqual(a, b) == Value(a) = Value(b)
MustDiffer(a, b) == a.kind # b.kind \/ (a.par # b.par /\ a.ops = << >> /\ b.ops = << >>)
With(s, o) == [k \in DOMAIN objs \cup {s} |-> IF k = s THEN o ELSE objs[k]]
Make(s, fam, kind, par) == objs' = With(s, [fam |-> fam, kind |-> kind, par |-> MadeOf(kind, par), ops |-> << >>])
Copy(to, from) == objs' = With(to, objs[from])
Set(s, f, v) == objs' = With(s, [objs[s] EXCEPT !.par = [k \in 1..Len(@) |-> IF k >= f /\ k < f + Len(v) THEN v[k - f + 1] ELSE @[k]]])
Do(s, op) == objs' = With(s, [objs[s] EXCEPT !.ops = Append(@, op)])
Drop(s) == objs' = [k \in DOMAIN objs \ {s} |-> objs[k]]
Learn(seen) == memo' = [v \in DOMAIN memo \cup {Value(seen[i].o) : i \in DOMAIN seen} |->
                          IF v \in DOMAIN memo THEN memo[v] ELSE LET i == CHOOSE i \in DOMAIN seen : Value(seen[i].o) = v IN seen[i].beh]
=============================================================================

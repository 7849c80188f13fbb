---------------------------- MODULE DocumentsMC ----------------------------
(* Documents edited key by key: what their meaning depends on.              *)
EXTENDS Documents
CONSTANT Changes
VARIABLES kind, doc, n
Init == kind \in Kinds /\ doc \in Bases(kind) /\ n = 0
Next == /\ n < Changes
        /\ n' = n + 1
        /\ kind' = kind
        /\ doc' \in Edits(kind, doc)
\* what a document leaves out has its default value
DefaultsHold == Meaning(kind, doc) = Meaning(kind, [k \in (DOMAIN Defaults(kind) \ DOMAIN doc) \cup DOMAIN doc |-> IF k \in DOMAIN doc THEN doc[k] ELSE Defaults(kind)[k]])
\* keys nobody knows do not matter
OthersIgnored == Meaning(kind, doc) = Meaning(kind, Set(doc, "unknown", Null))
\* every key that the meaning mentions can be changed by it: a refused value stays refused whatever else is there
BasesMean == n = 0 => Meaning(kind, doc).ok
NullRefused == \A k \in DOMAIN doc : doc[k].t = "null" /\ Meaning(kind, doc).ok => Meaning(kind, Drop(doc, k)) = Meaning(kind, doc)
=============================================================================

------------------------------- MODULE NumEdit -------------------------------
(* Words one or two edits away from decimal numbers; IsNum decides which are still numbers. *)
EXTENDS NumText, TLC, Json, FiniteSets
CONSTANTS Shard, Shards, Two, Emit
VARIABLE cs
Base == {"1", "-1", "10.5", "-2.25e1", "3E-2", ".5", "7.", "9e+3", "-.75E2", "123456789"}
Alpha == {"1", "-", ".", "e", "E", "_", "f", " ", ",", "@", "#", ")"}
Edits(t) == {SubSeq(t, 1, j - 1) \o c \o SubSeq(t, j, Len(t)) : j \in 1..(Len(t) + 1), c \in Alpha}
            \cup {SubSeq(t, 1, j - 1) \o c \o SubSeq(t, j + 1, Len(t)) : j \in 1..Len(t), c \in Alpha \cup {""}}
            \cup {SubSeq(t, 1, j) : j \in 0..Len(t)} \cup {t \o t}
Init == \E b \in Base : \E t \in Edits(b) : \E u \in (IF Two THEN Edits(t) ELSE {t}) : (Len(u) + Cardinality({k \in 1..Len(u) : Ch(u, k) \in Digit})) % Shards = Shard /\ cs = u
Spec == Init /\ [][FALSE]_cs
\* a number stays one when its sign is removed, and is never empty
SignFree == IsNum(cs) => (Len(cs) > 0 /\ (Ch(cs, 1) = "-" => IsNum(SubSeq(cs, 2, Len(cs)))))
Emitted == Emit => PrintT(<<"CASE", ToJson([txt |-> cs, ok |-> IsNum(cs)])>>)
=============================================================================

------------------------------ MODULE Unescape ------------------------------
(* Every CRS string made of a few escape sequences, and its plain text. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Emit
MT == INSTANCE MetaText WITH Suite <- "", Shard <- 0, Shards <- 1, text <- "", pos <- 0, mode <- "", stack <- <<>>, mark <- 0, key <- "", val <- "", edge <- 0, ctype <- 0, crs <- "", ghost <- <<>>
VARIABLES parts, form
Pieces == << "a", "\\\"", "\\\\", "\\/", "\\n", "\\t", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "^", "{", "\\r", "\\b\\f" >>
RECURSIVE Cat(_)
Cat(p) == IF p = <<>> THEN "" ELSE Pieces[p[1]] \o Cat(Tail(p))
Init == parts = <<>> /\ form \in {"string", "object"}
Next == Len(parts) < MaxLen /\ \E i \in DOMAIN Pieces : parts' = Append(parts, i) /\ UNCHANGED form
Spec == Init /\ [][Next]_<<parts, form>>
Text == IF form = "string" THEN "\"" \o Cat(parts) \o "\"" ELSE "{\"k\":\"" \o Cat(parts) \o "\"}"
AsIs == form = "object" => MT!Plain(Text) = MT!Chars(Text)
NoQuotes == form = "string" => Len(MT!Plain(Text)) <= 2 * Len(parts)
Emitted == Emit => PrintT(<<"CASE", ToJson([t |-> Text, p |-> MT!Plain(Text)])>>)
=============================================================================

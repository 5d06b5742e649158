------------------------------ MODULE MetaText ------------------------------
(***************************************************************************)
(* Extension metadata: values, their serialised text, and a pushdown       *)
(* reader that consumes the text one character at a time.                  *)
(*                                                                         *)
(* The top level is strict JSON (with string, object, list and null        *)
(* values); nested values are only matched bracket by bracket.             *)
(* A text is accepted, refused, or left open ("free": nested brackets that *)
(* do not match; any verdict is fine as long as nothing else happens).     *)
(* The characters ~ and ^ stand for a NUL byte and for a line feed.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Suite, Shard, Shards, MaxLen, Emit
VARIABLES text, pos, mode, stack, mark, key, val, edge, ctype, crs, ghost
vars == <<text, pos, mode, stack, mark, key, val, edge, ctype, crs, ghost>>
Q == "\""
B == "\\"
Ch(s, i) == SubSeq(s, i, i)
EdgeNames == <<"planar", "spherical", "vincenty", "thomas", "andoyer", "karney">>
CrsNames == <<"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid">>
Str(s) == Q \o s \o Q

(* --------------------------- writing --------------------------------- *)
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in {Q, B} THEN B \o Ch(s, 1) ELSE Ch(s, 1)) \o Escape(SubSeq(s, 2, Len(s)))
Raw(s) == s # "" /\ Ch(s, 1) \in {Q, "{"}            \* already JSON: a string or an object
CrsText(s) == IF Raw(s) THEN s ELSE Str(Escape(s))
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o "," \o Join(Tail(l))
Ser(e, c, s) == "{" \o Join((IF e = 0 THEN <<>> ELSE << Str("edges") \o ":" \o Str(EdgeNames[e + 1]) >>)
                         \o (IF c <= 1 THEN <<>> ELSE << Str("crs_type") \o ":" \o Str(CrsNames[c + 1]) >>)
                         \o (IF c = 0 THEN <<>> ELSE << Str("crs") \o ":" \o CrsText(s) >>)) \o "}"
(* ------------------------- unescaping -------------------------------- *)
(* a sequence of symbols: characters, or "u:" followed by four hex digits *)
RECURSIVE Unesc(_)
Unesc(s) == IF s = "" THEN <<>>
            ELSE IF Ch(s, 1) = B /\ Len(s) > 1
                 THEN LET c == Ch(s, 2) IN
                      IF c = "u" /\ Len(s) >= 6 THEN << "u:" \o SubSeq(s, 3, 6) >> \o Unesc(SubSeq(s, 7, Len(s)))
                      ELSE << CASE c = "n" -> "u:000a" [] c = "t" -> "u:0009" [] c = "r" -> "u:000d" [] c = "b" -> "u:0008" [] c = "f" -> "u:000c" [] OTHER -> c >>
                           \o Unesc(SubSeq(s, 3, Len(s)))
            ELSE << Ch(s, 1) >> \o Unesc(SubSeq(s, 2, Len(s)))
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Plain(s) == IF s # "" /\ Ch(s, 1) = Q THEN Unesc(SubSeq(s, 2, Len(s) - 1)) ELSE Chars(s)

(* ------------------------- what is read ------------------------------ *)
Alpha == <<"a", Q, B, "{", "}", ",", " ", ":", "^", "n">>
RECURSIVE Word(_, _)
Word(k, n) == IF n = 0 THEN "" ELSE Word(k \div Len(Alpha), n - 1) \o Alpha[1 + (k % Len(Alpha))]
Pow(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] OTHER -> 10000
Objects == << "{}", "{\"a\":1}", "{\"id\":{\"code\":[1,{}]},\"n\":\"}\"}", "{ \"x\" : \"\\\"{[\" }", "{\"a\":[[],[\"]\",{\"}\":[]}]]}" >>
Quoted == << "\"\"", "\"x\"", "\"a\\\"b\"", "\"\\\\\"", "\"OGC:CRS84\"", "\"{}\"", "\"a\\\\\\\"\"" >>

Ws == << "", " ", "\t ", "^", " \r^" >>
EdgeVals == << "\"planar\"", "\"spherical\"", "\"karney\"", "null", "\"vincenty\"", "\"thomas\"", "\"andoyer\"", "\"nope\"", "{}", "[]", "\"Planar\"", "\"planar \"" >>
CrsVals == << "null", "\"x\"", "{}", "{\"a\":\"}\",\"b\":[{},{\"c\":null}]}", "\"q\\\"q\\\\\"", "\"\"", "[]", "{ }", "{\"edges\":\"spherical\"}" >>
TypeVals == << "\"projjson\"", "\"wkt2:2019\"", "\"authority_code\"", "\"srid\"", "\"other\"", "\"PROJJSON\"", "null", "{}", "\"unknown\"", "\"abcd1234\"", "\"none\"" >>
OtherVals == << "\"v\"", "null", "[]", "{}", "[1,[2,\"]\"],{\"k\":true}]", "{\"crs\":\"inner\",\"l\":[\"[\"]}", "\"\\\"\"" >>
OtherKeys == << "k", "", "crs_", "Edges", "edge", "cr\\\"s", "crs_typ", "edgess", "crs_types" >>
M(k, v, w, x) == Ws[w] \o Str(k) \o Ws[x] \o ":" \o Ws[w] \o v \o Ws[x]
Members(e, c, t, o, k, w, x) ==
  (IF e = 0 THEN <<>> ELSE << M("edges", EdgeVals[e], w, x) >>) \o (IF c = 0 THEN <<>> ELSE << M("crs", CrsVals[c], x, w) >>)
  \o (IF t = 0 THEN <<>> ELSE << M("crs_type", TypeVals[t], w, x) >>) \o (IF o = 0 THEN <<>> ELSE << M(OtherKeys[k], OtherVals[o], x, x) >>)
Rotate(l, r) == IF l = <<>> THEN l ELSE LET n == r % Len(l) IN SubSeq(l, n + 1, Len(l)) \o SubSeq(l, 1, n)
Rev(l) == [i \in DOMAIN l |-> l[Len(l) + 1 - i]]
Obj(l, w, x) == Ws[x] \o "{" \o (IF l = <<>> THEN Ws[w] ELSE Join(l)) \o "}" \o Ws[w]
Bases == << "{\"edges\":\"spherical\",\"crs_type\":\"srid\",\"crs\":\"4\\\"\"}", "{\"crs\":{\"a\":[\"]\"]},\"k\":null}", " {\"k\" : [{}, 1] , \"edges\": null }",
            "{\"crs_type\":\"projjson\",\"crs\":{\"id\":{}}}", "{\"a\":\"\\\\\",\"crs\":\"\\\\\"}", "{}", "{\"crs\":null,\"crs_type\":\"wkt2:2019\"}" >>
Inserts == << Q, B, "{", "}", "[", "]", ",", ":", " ", "~", "a", "n", "^", "0" >>
Put(s, i, c) == SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Init ==
  /\ pos = 0 /\ mode = "start" /\ stack = <<>> /\ mark = 0 /\ key = "" /\ val = "" /\ edge = 0 /\ ctype = -1 /\ crs = ""
  /\ \/ Suite = "values" /\ \E e \in 0..5 : \E c \in 0..5 : \E n \in 0..MaxLen : \E k \in 0..(Pow(n) - 1) :
          /\ (k * 7 + e * 5 + c * 3 + n) % Shards = Shard
          /\ LET s == Word(k, n) IN ~Raw(s) /\ ghost = <<e, c, s>> /\ text = Ser(e, c, s)
     \/ Suite = "values" /\ \E e \in 0..5 : \E c \in 0..5 : \E i \in 1..Len(Objects \o Quoted) :
          LET s == (Objects \o Quoted)[i] IN ghost = <<e, c, s>> /\ text = Ser(e, c, s)
     \/ Suite = "texts" /\ ghost = <<>> /\ \E e \in 0..Len(EdgeVals) : \E c \in 0..Len(CrsVals) : \E t \in 0..Len(TypeVals) : \E o \in 0..Len(OtherVals) : \E r \in 0..7 :
          LET h == e * 5 + c * 11 + t * 17 + o * 23 + r * 29  l == Members(e, c, t, o, 1 + (h % Len(OtherKeys)), 1 + (h % 5), 1 + ((h \div 5) % 5)) IN
          /\ (h + (h \div 7)) % Shards = Shard /\ (r % 4 < Len(l) \/ r = 0)
          /\ text = Obj(Rotate(IF r < 4 THEN l ELSE Rev(l), r), 1 + (h % 5), 1 + ((h \div 3) % 5))
     \/ Suite = "edits" /\ ghost = <<>> /\ \E b \in DOMAIN Bases : LET s == Bases[b] IN
          \/ \E i \in 0..Len(s) : i % Shards = Shard /\ text = SubSeq(s, 1, i)
          \/ \E i \in 1..Len(s) : i % Shards = Shard /\ text = Del(s, i)
          \/ \E i \in 1..(Len(s) + 1) : \E c \in DOMAIN Inserts : (i + c) % Shards = Shard /\ text = Put(s, i, Inserts[c])
          \/ \E i \in 1..Len(s) : \E c \in DOMAIN Inserts : (i + c) % Shards = Shard /\ text = Put(Del(s, i), i, Inserts[c])
          \/ \E i \in 1..Len(s) : \E n \in 1..12 : i + n <= Len(s) /\ (i + n) % Shards = Shard /\ text = SubSeq(s, 1, i) \o SubSeq(s, i + n, Len(s))

(* --------------------------- reading --------------------------------- *)
Space(c) == c \in {" ", "\t", "\r", "^"}
c0 == Ch(text, pos + 1)
\* the value of the member whose last character is at pos + 1
Known(k) == k \in {"edges", "crs", "crs_type"}
EdgeIdx(v) == IF \E i \in 1..6 : v = Str(EdgeNames[i]) THEN (CHOOSE i \in 1..6 : v = Str(EdgeNames[i])) - 1 ELSE -1
TypeIdx(v) == IF \E i \in 3..6 : v = Str(CrsNames[i]) THEN (CHOOSE i \in 3..6 : v = Str(CrsNames[i])) - 1 ELSE 1
MemberOK(k, v) == CASE k = "edges" -> v = "null" \/ EdgeIdx(v) >= 0 [] k = "crs" -> Ch(v, 1) # "[" [] k = "crs_type" -> Ch(v, 1) = Q [] OTHER -> TRUE
Close(v) ==
  IF ~MemberOK(key, v) THEN mode' = "bad" /\ UNCHANGED <<edge, ctype, crs>>
  ELSE /\ mode' = "after"
       /\ edge' = IF key = "edges" THEN (IF v = "null" THEN 0 ELSE EdgeIdx(v)) ELSE edge
       /\ ctype' = IF key = "crs_type" THEN TypeIdx(v) ELSE ctype
       /\ crs' = IF key = "crs" THEN (IF v = "null" THEN "" ELSE v) ELSE crs
Go(m) == mode' = m /\ UNCHANGED <<edge, ctype, crs>>
Here == SubSeq(text, mark, pos + 1)
Keep == UNCHANGED <<stack, mark, key, val>>
Read ==
  /\ pos < Len(text) /\ mode \notin {"bad", "free"} /\ pos' = pos + 1 /\ UNCHANGED <<text, ghost>>
  /\ CASE mode = "start" -> Keep /\ Go(IF Space(c0) THEN "start" ELSE IF c0 = "{" THEN "first" ELSE "bad")
       [] mode \in {"first", "next"} ->
            IF c0 = Q THEN Go("key") /\ mark' = pos + 2 /\ UNCHANGED <<stack, key, val>>
            ELSE Keep /\ Go(IF Space(c0) THEN mode ELSE IF c0 = "}" /\ mode = "first" THEN "end" ELSE "bad")
       [] mode = "key" -> IF c0 = Q THEN Go("colon") /\ key' = SubSeq(text, mark, pos) /\ UNCHANGED <<stack, mark, val>>
                          ELSE Keep /\ Go(IF c0 = B THEN "keyesc" ELSE "key")
       [] mode = "keyesc" -> Keep /\ Go("key")
       [] mode = "colon" -> Keep /\ Go(IF Space(c0) THEN "colon" ELSE IF c0 = ":" THEN "value" ELSE "bad")
       [] mode = "value" ->
            IF Space(c0) THEN Keep /\ Go("value")
            ELSE /\ mark' = pos + 1 /\ UNCHANGED <<key, val>>
                 /\ stack' = IF c0 \in {"{", "["} THEN <<c0>> ELSE stack
                 /\ Go(IF c0 = Q THEN "str" ELSE IF c0 \in {"{", "["} THEN "nest" ELSE IF c0 = "n" THEN "null1" ELSE "bad")
       [] mode = "str" -> Keep /\ (IF c0 = Q THEN Close(Here) ELSE Go(IF c0 = B THEN "stresc" ELSE "str"))
       [] mode = "stresc" -> Keep /\ Go("str")
       [] mode = "nest" ->
            CASE c0 = Q -> Keep /\ Go("neststr")
              [] c0 \in {"{", "["} -> Go("nest") /\ stack' = Append(stack, c0) /\ UNCHANGED <<mark, key, val>>
              [] c0 \in {"}", "]"} ->
                   IF (c0 = "}") # (stack[Len(stack)] = "{") THEN Keep /\ Go("free")
                   ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<mark, key, val>>
                        /\ IF Len(stack) = 1 THEN Close(Here) ELSE Go("nest")
              [] OTHER -> Keep /\ Go(IF c0 = "~" THEN "bad" ELSE "nest")
       [] mode = "neststr" -> Keep /\ Go(IF c0 = Q THEN "nest" ELSE IF c0 = B THEN "neststresc" ELSE "neststr")
       [] mode = "neststresc" -> Keep /\ Go("neststr")
       [] mode = "null1" -> Keep /\ Go(IF c0 = "u" THEN "null2" ELSE "bad")
       [] mode = "null2" -> Keep /\ Go(IF c0 = "l" THEN "null3" ELSE "bad")
       [] mode = "null3" -> Keep /\ (IF c0 = "l" THEN Close("null") ELSE Go("bad"))
       [] mode = "after" -> Keep /\ Go(IF Space(c0) THEN "after" ELSE IF c0 = "," THEN "next" ELSE IF c0 = "}" THEN "end" ELSE "bad")
       [] mode = "end" -> Keep /\ Go(IF Space(c0) THEN "end" ELSE "bad")
Next == Read
Spec == Init /\ [][Next]_vars

Done == pos = Len(text) \/ mode \in {"bad", "free"}
Verdict == IF text = "" THEN "empty" ELSE IF mode = "free" THEN "free" ELSE IF Done /\ mode = "end" THEN "ok" ELSE "refused"
OutType == IF crs = "" THEN 0 ELSE IF ctype = -1 THEN 1 ELSE ctype
RoundTrip == (Done /\ ghost # <<>>) =>
  /\ Verdict = "ok" /\ edge = ghost[1] /\ OutType = ghost[2]
  /\ (ghost[2] # 0 => crs = CrsText(ghost[3]) /\ (~Raw(ghost[3]) => Plain(crs) = Chars(ghost[3])))
\* an accepted text has its outermost brace closed: no prefix that ends earlier is accepted
Complete == mode = "end" => stack = <<>> /\ \E i \in 1..pos : Ch(text, i) = "}"
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson([t |-> text, v |-> Verdict, e |-> edge, c |-> OutType, s |-> crs, p |-> Plain(crs), g |-> ghost])>>)
=============================================================================

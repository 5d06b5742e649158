----------------------------- MODULE DataTypes ------------------------------
(***************************************************************************)
(* C++ data type objects.                                                  *)
(*                                                                         *)
(* An object is a value [t |-> type id, e |-> edges, r |-> kind of CRS,    *)
(* s |-> CRS text]; t = 0 is the empty object.  A history creates objects  *)
(* from earlier ones (one aspect changed, copied, moved, converted through *)
(* a schema, a storage schema, an identifier plus text metadata, or the    *)
(* three components), overwrites objects by assignment and destroys them.  *)
(* A request that cannot be met creates nothing and changes nothing.       *)
(***************************************************************************)
EXTENDS Types
CONSTANTS Suite, Steps, Shard, Shards, Emit
VARIABLES objs, log, first
vars == <<objs, log, first>>
Q == "\""
Texts == <<"EPSG:4326", "{\"a\":{\"b\":\"}\"}}", "x\"y\\z", "012345678901234567890123456789012345678901234567890123456789", "4326", "", "0123456789012345678901234567890123456",
           "EPSG\\u003a4326", "01234567890123456789012345678901234567">>
Spelled(i) == IF i = 8 THEN Q \o Texts[8] \o Q ELSE Texts[i]   \* a text given as a quoted literal
Plain(i) == IF i = 8 THEN Texts[1] ELSE Texts[i]
CrsVals == {<<0, "">>} \cup {<<r, Texts[i]>> : r \in 1..5, i \in {1, 2, 3, 4}} \cup {<<1, Texts[7]>>, <<1, Texts[9]>>, <<5, Texts[5]>>, <<2, "LONLAT">>}
Obj(t, e, r, s) == [t |-> t, e |-> e, r |-> r, s |-> s]
Empty == Obj(0, 0, 0, "")
None == Obj(-1, 0, 0, "")                                       \* destroyed
Simple(g) == IF g \in {1, 4} THEN 1 ELSE IF g \in {2, 5} THEN 2 ELSE IF g \in {3, 6} THEN 3 ELSE 0
Multi(g) == IF Simple(g) = 0 THEN 0 ELSE Simple(g) + 3

Reread == [t \in Ids |-> Recog(TreeOf(t), ExtOf(t))]
(* the value a request makes of x, or None *)
With(x, g, d, c) == LET m == Make(g, d, c) IN IF m = 0 THEN None ELSE [x EXCEPT !.t = m]
Made(x, w, v) ==
  CASE w = "g" -> With(x, v, DimOf(x.t), CoordOf(x.t))
    [] w \in {"d", "dm"} -> With(x, GeomOf(x.t), v, CoordOf(x.t))
    [] w = "c" -> With(x, GeomOf(x.t), DimOf(x.t), v)
    [] w = "simple" -> With(x, Simple(GeomOf(x.t)), DimOf(x.t), CoordOf(x.t))
    [] w = "multi" -> With(x, Multi(GeomOf(x.t)), DimOf(x.t), CoordOf(x.t))
    [] w = "e" -> [x EXCEPT !.e = v]
    [] w = "crs" -> [x EXCEPT !.r = v % 10, !.s = Plain(v \div 10)]
    [] w = "lonlat" -> [x EXCEPT !.r = 2, !.s = "LONLAT"]
    [] w \in {"copy", "move", "assign", "moveassign"} -> x
    [] w = "schema" -> IF x.t = 0 THEN None ELSE [x EXCEPT !.t = Reread[x.t]]
    [] w = "storage" -> IF x.t = 0 THEN None ELSE [x EXCEPT !.t = Reread[x.t]]
    [] w = "id" -> IF x.t = 0 THEN None ELSE x
    [] w = "parts" -> With(x, GeomOf(x.t), DimOf(x.t), CoordOf(x.t))
GVals == Geoms \cup {0, 7, 8, 989, 991}
DVals == (0..4) \cup {5, 7}
CVals == (0..2) \cup {3}
Vals(w) == CASE w = "g" -> GVals [] w = "d" -> DVals [] w = "dm" -> 1..4 [] w = "c" -> CVals [] w = "e" -> 0..5
             [] w = "crs" -> {60} \cup {10 * i + r : i \in {1, 2, 3, 4, 8}, r \in 1..5} \cup {71, 91, 55} [] OTHER -> {0}
OpList == <<"g", "d", "dm", "c", "simple", "multi", "e", "crs", "lonlat", "copy", "move", "schema", "storage", "id", "parts">>
\* what the Python bindings offer
PyOps == {"g", "d", "c", "e", "crs", "schema", "storage", "parts"}
Ops == IF Suite = "py" THEN PyOps ELSE {OpList[i] : i \in 1..15}
Walk == Suite \in {"walk", "py"}
\* asking a serialised type for what it already (does not) have is left open
Open(x, w, v) == x.t \notin Natives /\ w \in {"g", "d", "c"} /\ v = 0
Hash(x) == x.t * 7 + x.e * 5 + x.r * 3 + Len(x.s)
All == {Obj(t, e, c[1], c[2]) : t \in Ids, e \in 0..5, c \in CrsVals}
Init == /\ log = <<>>
        /\ CASE Suite = "step" -> \E t \in Ids : \E e \in 0..5 : \E c \in CrsVals : LET x == Obj(t, e, c[1], c[2]) IN (Hash(x) % Shards) = Shard /\ objs = <<x>>
             [] OTHER -> \E t \in Ids : objs = <<Obj(t, 0, 0, ""), Empty>>
        /\ first = objs[1]
Live(k) == k \in DOMAIN objs /\ objs[k].t # -1
OpNo(w) == CHOOSE i \in 1..15 : OpList[i] = w
Chosen(k, w, v) == Suite = "step" \/ (k * 31 + v * 7 + Len(log) * 13 + OpNo(w) * 5 + first.t + Len(objs) * 3) % 29 = 0
Step(k, w, v) ==
  /\ Chosen(k, w, v) /\ Live(k) /\ ~Open(objs[k], w, v)
  \* the bindings do nothing with an object that is not initialised
  /\ LET y == IF Suite = "py" /\ objs[k].t = 0 THEN None ELSE Made(objs[k], w, v)
         base == IF w = "move" THEN [objs EXCEPT ![k] = Empty] ELSE objs IN
     /\ objs' = IF y = None THEN objs ELSE Append(base, y)
     /\ log' = Append(log, [k |-> k, w |-> w, v |-> v, ok |-> y # None, j |-> 0])
Assign(k, j, w) ==
  /\ Live(k) /\ Live(j) /\ (w = "moveassign" => k # j)
  /\ objs' = IF w = "moveassign" THEN [objs EXCEPT ![j] = objs[k], ![k] = Empty] ELSE [objs EXCEPT ![j] = objs[k]]
  /\ log' = Append(log, [k |-> k, w |-> w, v |-> 0, ok |-> TRUE, j |-> j])
Drop(k) == Live(k) /\ Cardinality({i \in DOMAIN objs : Live(i)}) > 1 /\ objs' = [objs EXCEPT ![k] = None]
           /\ log' = Append(log, [k |-> k, w |-> "drop", v |-> 0, ok |-> TRUE, j |-> 0])
End == log' = Append(log, [k |-> 0, w |-> "end", v |-> 0, ok |-> TRUE, j |-> 0]) /\ UNCHANGED objs
Some(k, j) == (k * 17 + j * 5 + Len(log) * 3 + first.t) % 7 = 0
Next == /\ Len(log) < Steps /\ UNCHANGED first
        /\ IF Walk /\ Len(log) = Steps - 1 THEN End ELSE
           \/ \E k \in DOMAIN objs : \E w \in Ops : \E v \in Vals(w) : Step(k, w, v)
           \/ Suite = "walk" /\ \E k, j \in DOMAIN objs : \E w \in {"assign", "moveassign"} : Some(k, j) /\ Assign(k, j, w)
           \/ Walk /\ \E k \in DOMAIN objs : Some(k, 0) /\ Drop(k)
Spec == Init /\ [][Next]_vars

last == log[Len(log)]
Proper == \A k \in DOMAIN objs : objs[k].t \in Ids \cup {0, -1} /\ (objs[k].r = 0 <=> objs[k].s = "")
\* what a change leaves alone
Only == (Suite = "step" /\ Len(log) = 1 /\ last.ok) =>
  LET x == objs[1]  y == objs[2]  w == last.w IN
  /\ (w \notin {"g", "simple", "multi", "move"} => GeomOf(y.t) = GeomOf(x.t))
  /\ (w \notin {"d", "dm", "move"} => DimOf(y.t) = DimOf(x.t))
  /\ (w \notin {"c", "move"} => CoordOf(y.t) = CoordOf(x.t))
  /\ (w \notin {"g", "d", "dm", "c", "simple", "multi", "move"} => y.t = x.t)
  /\ (w \notin {"e", "move"} => y.e = x.e)
  /\ (w \notin {"crs", "lonlat", "move"} => y.r = x.r /\ y.s = x.s)
Unmoved == (Suite = "step" /\ Len(log) = 1) => (last.w = "move" \/ Len(objs) = 1 \/ objs[1].t # 0)
Same(x) == /\ (x.t \in Natives => Made(x, "g", GeomOf(x.t)) = x /\ Made(x, "d", DimOf(x.t)) = x /\ Made(x, "c", CoordOf(x.t)) = x /\ Made(x, "parts", 0) = x)
           /\ (x.t \in Ids => Made(x, "schema", 0) = x /\ Made(x, "storage", 0) = x)
           /\ Made(x, "e", x.e) = x
\* changes of different aspects commute, and simple/multi are each other's inverse on what they apply to
Commute(x) == (x.t \in Natives /\ GeomOf(x.t) # 990) => \A g \in 1..6 : \A d \in 1..4 : \A c \in 1..2 :
    /\ Made(Made(x, "g", g), "d", d) = Made(Made(x, "d", d), "g", g)
    /\ Made(Made(x, "g", g), "c", c) = Made(Made(x, "c", c), "g", g)
    /\ Made(Made(x, "d", d), "c", c) = Made(Made(x, "c", c), "d", d)
Pairing(x) == Made(x, "multi", 0) # None => Made(Made(x, "multi", 0), "simple", 0) = Made(x, "simple", 0) /\ Made(Made(x, "simple", 0), "multi", 0) = Made(x, "multi", 0)
Laws == (Suite = "step" /\ log = <<>>) => \A k \in DOMAIN objs : Same(objs[k]) /\ Commute(objs[k]) /\ Pairing(objs[k])

(* what is seen of an object *)
Cat(b, s) == IF b THEN s ELSE ""
Suffix(x) == IF x.r = 0 \/ x.s = "" THEN "" ELSE "<" \o (IF x.r = 1 THEN "" ELSE CrsName(x.r) \o ":") \o x.s \o ">"
Cut(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n - 4) \o "...>" ELSE s
DimTail(d) == CASE d = 2 -> "_z" [] d = 3 -> "_m" [] d = 4 -> "_zm" [] OTHER -> ""
Text(x, n) == IF x.t = 0 THEN "<Uninitialized GeometryDataType>" ELSE IF x.s = "LONLAT" THEN "" ELSE
   Cat(x.t \in {100002, 100004}, "large ") \o Cat(x.t \in {100005, 100006}, "view ") \o Cat(x.e # 0, EdgeName(x.e) \o " ") \o Cat(CoordOf(x.t) = 2, "interleaved ")
   \o ExtOf(x.t) \o DimTail(DimOf(x.t)) \o Cut(Suffix(x), n)
Seen(x) == IF x.t = -1 THEN [t |-> -1] ELSE
           [t |-> x.t, g |-> GeomOf(x.t), d |-> DimOf(x.t), c |-> CoordOf(x.t), nd |-> IF DimOf(x.t) = 0 THEN -1 ELSE NDims(DimOf(x.t)), e |-> x.e, r |-> x.r, s |-> x.s,
            ext |-> IF x.t = 0 THEN "-" ELSE ExtOf(x.t), str |-> Text(x, 40), str10 |-> Text(x, 10)]
Emitted == (Emit /\ Len(log) = Steps) => PrintT(<<"CASE", ToJson([first |-> first, log |-> log, objs |-> [k \in DOMAIN objs |-> Seen(objs[k])]])>>)
=============================================================================

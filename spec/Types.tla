------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The type algebra and its storage layouts.                               *)
(*                                                                         *)
(* A native type is a triple (geometry, dimensions, coordinate layout); a  *)
(* serialised type is atomic.  Identifiers are the images of Code.  The    *)
(* decomposition is defined by looking a triple up, not by arithmetic.     *)
(* A storage layout is a tree of nodes [f |-> format, n |-> name,          *)
(* k |-> children]; Recog reads a tree plus an extension name back.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
Geoms == (1..6) \cup {990}
Combos == {<<g, d, c>> \in Geoms \X (1..4) \X (1..2) : g = 990 => c = 1}
Code(x) == x[1] + (x[2] - 1) * 1000 + (x[3] - 1) * 10000
Natives == {Code(x) : x \in Combos}
Serials == 100001..100006
Ids == Natives \cup Serials
Valid == Ids \cup {0}
PartsTable == [t \in Natives |-> CHOOSE x \in Combos : Code(x) = t]
Parts(t) == PartsTable[t]
Make(g, d, c) == IF <<g, d, c>> \in Combos THEN Code(<<g, d, c>>) ELSE 0
GeomOf(t) == IF t \in Natives THEN Parts(t)[1] ELSE 0
DimOf(t) == IF t \in Natives THEN Parts(t)[2] ELSE 0
CoordOf(t) == IF t \in Natives THEN Parts(t)[3] ELSE 0

GeomName(g) == CASE g = 0 -> "GEOMETRY" [] g = 1 -> "POINT" [] g = 2 -> "LINESTRING" [] g = 3 -> "POLYGON" [] g = 4 -> "MULTIPOINT"
                 [] g = 5 -> "MULTILINESTRING" [] g = 6 -> "MULTIPOLYGON" [] g = 7 -> "GEOMETRYCOLLECTION" [] g = 990 -> "BOX" [] OTHER -> "<not valid>"
DimName(d) == CASE d = 0 -> "unknown" [] d = 1 -> "xy" [] d = 2 -> "xyz" [] d = 3 -> "xym" [] d = 4 -> "xyzm" [] OTHER -> "<not valid>"
CoordName(c) == CASE c = 0 -> "unknown" [] c = 1 -> "separate" [] c = 2 -> "interleaved" [] OTHER -> "<not valid>"
EdgeName(e) == CASE e = 0 -> "planar" [] e = 1 -> "spherical" [] e = 2 -> "vincenty" [] e = 3 -> "thomas" [] e = 4 -> "andoyer" [] e = 5 -> "karney" [] OTHER -> "<not valid>"
CrsName(c) == CASE c = 0 -> "none" [] c = 1 -> "unknown" [] c = 2 -> "projjson" [] c = 3 -> "wkt2:2019" [] c = 4 -> "authority_code" [] c = 5 -> "srid" [] OTHER -> "<not valid>"

NativeExt(g) == CASE g = 1 -> "geoarrow.point" [] g = 2 -> "geoarrow.linestring" [] g = 3 -> "geoarrow.polygon" [] g = 4 -> "geoarrow.multipoint"
                  [] g = 5 -> "geoarrow.multilinestring" [] g = 6 -> "geoarrow.multipolygon" [] g = 990 -> "geoarrow.box" [] OTHER -> "-"
ExtOf(t) == IF t \in {100001, 100002, 100005} THEN "geoarrow.wkb" ELSE IF t \in {100003, 100004, 100006} THEN "geoarrow.wkt" ELSE NativeExt(GeomOf(t))
SerialFormat(t) == CASE t = 100001 -> "z" [] t = 100002 -> "Z" [] t = 100003 -> "u" [] t = 100004 -> "U" [] t = 100005 -> "vz" [] OTHER -> "vu"
NDims(d) == IF d = 1 THEN 2 ELSE IF d = 4 THEN 4 ELSE 3
Axes(d) == CASE d = 1 -> <<"x", "y">> [] d = 2 -> <<"x", "y", "z">> [] d = 3 -> <<"x", "y", "m">> [] OTHER -> <<"x", "y", "z", "m">>
Levels(g) == IF g \in {1, 990} THEN 0 ELSE IF g \in {2, 4} THEN 1 ELSE IF g \in {3, 5} THEN 2 ELSE 3
ListNames(g) == CASE g = 2 -> <<"vertices">> [] g = 3 -> <<"rings", "vertices">> [] g = 4 -> <<"points">> [] g = 5 -> <<"linestrings", "vertices">>
                  [] g = 6 -> <<"polygons", "rings", "vertices">> [] OTHER -> <<>>

Node(f, n, k) == [f |-> f, n |-> n, k |-> k]
Leaf(n) == Node("g", n, <<>>)
Coords(d, c, n) == IF c = 1 THEN Node("+s", n, [i \in 1..NDims(d) |-> Leaf(Axes(d)[i])])
                   ELSE Node("+w:" \o ToString(NDims(d)), n, << Leaf(DimName(d)) >>)
RECURSIVE Lists(_, _, _, _)
Lists(names, d, c, n) == IF names = <<>> THEN Coords(d, c, n) ELSE Node("+l", n, << Lists(Tail(names), d, c, Head(names)) >>)
BoxTree(d) == Node("+s", "", [i \in 1..2 * NDims(d) |-> LET m == NDims(d) IN
                 Leaf(Axes(d)[1 + ((i - 1) % m)] \o (IF i <= m THEN "min" ELSE "max"))])
TreeOf(t) == IF t \in Serials THEN Node(SerialFormat(t), "", <<>>)
             ELSE IF GeomOf(t) = 990 THEN BoxTree(DimOf(t)) ELSE Lists(ListNames(GeomOf(t)), DimOf(t), CoordOf(t), "")

(* reading a layout back: 0 when it is none of the supported ones *)
DimsNamed(s) == IF \E d \in 1..4 : Axes(d) = s THEN CHOOSE d \in 1..4 : Axes(d) = s ELSE 0
NamesOf(k) == [i \in DOMAIN k |-> k[i].n]
AllDoubles(k) == \A i \in DOMAIN k : k[i].f = "g"
ListSize(f) == IF \E n \in 1..9 : f = "+w:" \o ToString(n) THEN CHOOSE n \in 1..9 : f = "+w:" \o ToString(n) ELSE 0
CoordRecog(x) == \* <<d, c>> or <<0, 0>>
  CASE x.f = "+s" /\ AllDoubles(x.k) /\ DimsNamed(NamesOf(x.k)) # 0 -> <<DimsNamed(NamesOf(x.k)), 1>>
    [] ListSize(x.f) # 0 /\ Len(x.k) = 1 /\ AllDoubles(x.k) ->
         LET n == ListSize(x.f)  nm == x.k[1].n IN
         IF \E d \in 1..4 : DimName(d) = nm
         THEN LET d == CHOOSE d \in 1..4 : DimName(d) = nm IN IF NDims(d) = n THEN <<d, 2>> ELSE <<0, 0>>
         ELSE IF n = 2 THEN <<1, 2>> ELSE IF n = 3 THEN <<2, 2>> ELSE IF n = 4 THEN <<4, 2>> ELSE <<0, 0>>   \* an unnamed list is guessed by its size
    [] OTHER -> <<0, 0>>
RECURSIVE ListRecog(_, _)
ListRecog(x, lv) == IF lv = 0 THEN CoordRecog(x) ELSE IF x.f = "+l" /\ Len(x.k) = 1 THEN ListRecog(x.k[1], lv - 1) ELSE <<0, 0>>
BoxDims(x) == LET Fits(d) == Len(x.k) = 2 * NDims(d) /\ NamesOf(x.k) = NamesOf(BoxTree(d).k) IN
              IF x.f = "+s" /\ AllDoubles(x.k) /\ (\E d \in 1..4 : Fits(d)) THEN CHOOSE d \in 1..4 : Fits(d) ELSE 0
Recog(x, ext) ==
  CASE ext \in {"geoarrow.wkb", "geoarrow.wkt"} ->
         IF \E t \in Serials : ExtOf(t) = ext /\ SerialFormat(t) = x.f THEN CHOOSE t \in Serials : ExtOf(t) = ext /\ SerialFormat(t) = x.f ELSE 0
    [] ext = "geoarrow.box" -> Make(990, BoxDims(x), 1)
    [] \E g \in 1..6 : NativeExt(g) = ext -> LET g == CHOOSE g \in 1..6 : NativeExt(g) = ext  dc == ListRecog(x, Levels(g)) IN Make(g, dc[1], dc[2])
    [] OTHER -> 0

(* the array built for a layout: number of buffers of every node *)
Buffers(f) == IF f \in {"u", "z", "U", "Z"} THEN 3 ELSE IF f \in {"g", "+l"} THEN 2 ELSE 1
RECURSIVE Shape(_)
Shape(x) == [b |-> Buffers(x.f), k |-> [i \in DOMAIN x.k |-> Shape(x.k[i])]]
=============================================================================

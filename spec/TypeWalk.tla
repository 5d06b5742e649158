------------------------------ MODULE TypeWalk ------------------------------
(***************************************************************************)
(* Walks through the type algebra: starting from any identifier, change    *)
(* one component at a time to any value, supported or not.                 *)
(***************************************************************************)
EXTENDS Types
CONSTANTS Emit
VARIABLES t, from, what, val
vars == <<t, from, what, val>>
GVals == Geoms \cup {0, 7, 8, -1, 989, 991, 1001, 10001, 2147483647}
DVals == (0..4) \cup {5, -1, 11, 101, 2147483647}
CVals == (0..2) \cup {3, -1, 11, 2147483647}
Change(w, v) == CASE w = "g" -> Make(v, DimOf(t), CoordOf(t)) [] w = "d" -> Make(GeomOf(t), v, CoordOf(t)) [] OTHER -> Make(GeomOf(t), DimOf(t), v)
Vals(w) == CASE w = "g" -> GVals [] w = "d" -> DVals [] OTHER -> CVals
Init == t \in Valid /\ from = t /\ what = "-" /\ val = 0
Next == \E w \in {"g", "d", "c"} : \E v \in Vals(w) : t' = Change(w, v) /\ from' = t /\ what' = w /\ val' = v
Spec == Init /\ [][Next]_vars

Known == t \in Valid
Inverse == t \in Natives => Make(GeomOf(t), DimOf(t), CoordOf(t)) = t
Unsupported == t \notin Natives => Make(GeomOf(t), DimOf(t), CoordOf(t)) = 0
OneOnly == (what # "-" /\ t # 0) =>
   /\ (what # "g" => GeomOf(t) = GeomOf(from)) /\ (what # "d" => DimOf(t) = DimOf(from)) /\ (what # "c" => CoordOf(t) = CoordOf(from))
   /\ val = CASE what = "g" -> GeomOf(t) [] what = "d" -> DimOf(t) [] OTHER -> CoordOf(t)
Identity == (what # "-" /\ from \in Natives /\ val = CASE what = "g" -> GeomOf(from) [] what = "d" -> DimOf(from) [] OTHER -> CoordOf(from)) => t = from
Readable == t \in Ids => Recog(TreeOf(t), ExtOf(t)) = t
Separated == \A s \in Ids : (t \in Ids /\ TreeOf(s) = TreeOf(t) /\ ExtOf(s) = ExtOf(t)) => s = t
Facts(x) == [t |-> x, g |-> GeomOf(x), d |-> DimOf(x), c |-> CoordOf(x), ext |-> ExtOf(x), nd |-> IF DimOf(x) = 0 THEN 0 ELSE NDims(DimOf(x)), lv |-> Levels(GeomOf(x)),
             tree |-> IF x = 0 THEN Node("", "", <<>>) ELSE TreeOf(x), shape |-> IF x = 0 THEN <<>> ELSE Shape(TreeOf(x))]
Emitted == Emit => PrintT(<<"CASE", ToJson(IF what = "-" THEN [kind |-> "facts", x |-> Facts(t)]
   ELSE [kind |-> "step", x |-> [from |-> from, w |-> what, v |-> val, t |-> t]])>>)
Names == [g |-> [i \in 1..12 |-> <<i - 2, GeomName(i - 2)>>] \o << <<990, GeomName(990)>>, <<989, GeomName(989)>> >>,
          d |-> [i \in 1..8 |-> <<i - 2, DimName(i - 2)>>], c |-> [i \in 1..6 |-> <<i - 2, CoordName(i - 2)>>],
          e |-> [i \in 1..9 |-> <<i - 2, EdgeName(i - 2)>>], r |-> [i \in 1..9 |-> <<i - 2, CrsName(i - 2)>>]]
NamesEmitted == (Emit /\ t = 0 /\ what = "-") => PrintT(<<"CASE", ToJson([kind |-> "names", x |-> Names])>>)
=============================================================================

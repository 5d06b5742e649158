----------------------------- MODULE SchemaMut ------------------------------
(***************************************************************************)
(* Schemas one or two edits away from a supported layout.  Every edit      *)
(* changes a format, a name, the number or order of children, or the       *)
(* extension name.  Recog says which of the results are layouts again.     *)
(***************************************************************************)
EXTENDS Types
CONSTANTS Edits, Shard, Shards, Emit
VARIABLES base, tree, ext, n
vars == <<base, tree, ext, n>>
Formats == <<"+s", "+l", "+L", "+vl", "+w:2", "+w:3", "+w:4", "+w:1", "+w:5", "g", "f", "u", "U", "z", "Z", "vu", "vz", "i", "zz">>
NameSet == <<"x", "y", "z", "m", "xy", "xyz", "xym", "xyzm", "xmin", "xmax", "ymin", "zmax", "mmin", "X", "xx", "", "~", "xmid", "vertices">>
Exts == <<"geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon",
          "geoarrow.box", "geoarrow.wkb", "geoarrow.wkt", "geoarrow", "geoarrow.", "geoarrow.poin", "geoarrow.points", "geoarrow.wkb2", "geoarrow.wkb.x", "geoarrow.wkbgeoarrow.wkb",
          "geoarrow.wkt ", "geoarrow.geometry", "geoarrow.geometrycollection", "GEOARROW.POINT", "ogc.wkb", "geoarrow.boxes", "geoarrow.wk", "geoarrow.linestringz", "geoarrow.polygo", "">>
RECURSIVE Count(_)
Count(x) == LET F[i \in 0..Len(x.k)] == IF i = 0 THEN 0 ELSE F[i - 1] + Count(x.k[i]) IN 1 + F[Len(x.k)]
\* put node y in the place of the p-th node in preorder
RECURSIVE At(_, _, _)
Before(x, i) == LET F[j \in 0..Len(x.k)] == IF j = 0 THEN 0 ELSE F[j - 1] + Count(x.k[j]) IN F[i - 1]
At(x, p, y) ==
  IF p = 1 THEN y
  ELSE LET i == CHOOSE i \in DOMAIN x.k : p - 1 > Before(x, i) /\ p - 1 <= Before(x, i) + Count(x.k[i]) IN
       [x EXCEPT !.k[i] = At(x.k[i], p - 1 - Before(x, i), y)]
RECURSIVE NodeAt(_, _)
NodeAt(x, p) == IF p = 1 THEN x ELSE LET i == CHOOSE i \in DOMAIN x.k : p - 1 > Before(x, i) /\ p - 1 <= Before(x, i) + Count(x.k[i]) IN NodeAt(x.k[i], p - 1 - Before(x, i))
Drop(k, i) == SubSeq(k, 1, i - 1) \o SubSeq(k, i + 1, Len(k))
Twice(k, i) == SubSeq(k, 1, i) \o SubSeq(k, i, Len(k))
Swap(k, i, j) == [k EXCEPT ![i] = k[j], ![j] = k[i]]
Init == base \in Ids /\ tree = TreeOf(base) /\ ext = ExtOf(base) /\ n = 0
Kind(x) == CASE x.f = "g" -> 1 [] OTHER -> 2
H(p, a, b) == (p * 7 + a * 3 + b * 11 + base * 5 + n * 13 + Len(tree.f) + Count(tree)) % Shards = Shard
Pick(p, a, b) == n = 0 \/ H(p, a, b)      \* all single edits; a shard of the second ones
Next ==
  /\ n < Edits /\ n' = n + 1 /\ base' = base
  /\ \/ \E p \in 1..Count(tree) : \E f \in DOMAIN Formats :
          Pick(p, f, 1) /\ NodeAt(tree, p).f # Formats[f] /\ tree' = At(tree, p, [NodeAt(tree, p) EXCEPT !.f = Formats[f]]) /\ ext' = ext
     \/ \E p \in 1..Count(tree) : \E m \in DOMAIN NameSet :
          Pick(p, m, 2) /\ NodeAt(tree, p).n # NameSet[m] /\ tree' = At(tree, p, [NodeAt(tree, p) EXCEPT !.n = NameSet[m]]) /\ ext' = ext
     \/ \E p \in 1..Count(tree) : \E i \in DOMAIN NodeAt(tree, p).k :
          /\ Pick(p, i, 3) /\ ext' = ext
          /\ \/ tree' = At(tree, p, [NodeAt(tree, p) EXCEPT !.k = Drop(NodeAt(tree, p).k, i)])
             \/ tree' = At(tree, p, [NodeAt(tree, p) EXCEPT !.k = Twice(NodeAt(tree, p).k, i)])
             \/ \E j \in DOMAIN NodeAt(tree, p).k : i < j /\ tree' = At(tree, p, [NodeAt(tree, p) EXCEPT !.k = Swap(NodeAt(tree, p).k, i, j)])
     \/ \E p \in 1..Count(tree) : Pick(p, 1, 4) /\ ext' = ext /\ tree' = At(tree, p, Node("+l", NodeAt(tree, p).n, << [NodeAt(tree, p) EXCEPT !.n = "vertices"] >>))
     \/ \E p \in 1..Count(tree) : Pick(p, 1, 5) /\ ext' = ext /\ Len(NodeAt(tree, p).k) = 1 /\ tree' = At(tree, p, NodeAt(tree, p).k[1])
     \/ \E e \in DOMAIN Exts : Pick(e, 1, 6) /\ Exts[e] # ext /\ ext' = Exts[e] /\ tree' = tree
Spec == Init /\ [][Next]_vars
Sound == LET r == Recog(tree, ext) IN
  r # 0 => /\ r \in Ids /\ ExtOf(r) = ext
           /\ (r \in Serials => tree.f = SerialFormat(r))
Unmoved == n = 0 => Recog(tree, ext) = base
\* an accepted layout is the canonical one up to the names of lists and of guessed coordinate lists
RECURSIVE Bare(_)
Bare(x) == [f |-> x.f, k |-> IF x.f = "+s" THEN x.k ELSE [i \in DOMAIN x.k |-> Bare(x.k[i])]]
RECURSIVE Strip(_)
Strip(x) == [f |-> x.f, k |-> [i \in DOMAIN x.k |-> Strip(x.k[i])]]
\* primitive nodes have no children: anything else is not an Arrow schema at all
RECURSIVE Primitive(_)
Primitive(x) == (x.k # <<>> => x.f \in {"+s", "+l", "+L", "+vl", "+w:1", "+w:2", "+w:3", "+w:4", "+w:5"}) /\ \A i \in DOMAIN x.k : Primitive(x.k[i])
Canonical == LET r == Recog(tree, ext) IN (r \in Natives /\ Primitive(tree)) => Strip(tree) = Strip(TreeOf(r))
Emitted == (Emit /\ Primitive(tree)) => PrintT(<<"CASE", ToJson([base |-> base, tree |-> tree, ext |-> ext, n |-> n, r |-> Recog(tree, ext)])>>)
=============================================================================

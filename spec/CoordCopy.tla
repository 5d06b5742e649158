----------------------------- MODULE CoordCopy -----------------------------
(* The coordinates of a whole geometry copied node by node into memory of   *)
(* fixed dimensions (GeoArrowGeometryViewCopyCoordsGeneric), and each of    *)
(* its sequences written as it is (GeoArrowGeometryNodeWriteSequence).      *)
(* Nodes keep dimensions of their own, so does the memory they lie in.      *)
EXTENDS Trees, Json
CONSTANTS Shard, Shards, Turn, Emit
VARIABLES g, dst, lay, out, todo, rows, seqs
vars == <<g, dst, lay, out, todo, rows, seqs>>

IndexOf(seq, x) == IF \E i \in DOMAIN seq : seq[i] = x THEN CHOOSE i \in DOMAIN seq : seq[i] = x ELSE 0
Row(i, s, d) == [j \in 1..NVals(d) |-> IF IndexOf(Axes(s), Axes(d)[j]) = 0 THEN 0 ELSE 10 * i + Axes(d)[j]]   \* 0 stands for NaN
\* the coordinate sequences of a tree in pre-order: <<dimensions, first coordinate, size>>
RECURSIVE Seqs(_, _)
Seqs(x, s) == (IF x.t \in {PT, LS} THEN << <<x.d, s, x.n>> >> ELSE <<>>)
              \o [i \in DOMAIN x.r |-> <<x.d, RingStart(x, s, i), x.r[i]>>]
              \o Flat([i \in DOMAIN x.k |-> Seqs(x.k[i], KidStart(x, s, i))])
Start == 100
Families == UNION {SimpleTrees(d) : d \in Dims} \cup Mixed \cup Coll1(XYZ) \cup Coll2(XYM)
            \cup {Ls(d, n) : d \in Dims, n \in {63, 64, 65}} \cup {Coll(GC, XY, << Ls(XYZM, 65), Pg(XYM, <<64, 1>>), Ls(XYZ, 33) >>)}
Hash(x) == NCoords(x) * 7 + x.t * 3 + x.d + Len(x.k) * 5 + Len(x.r) + Sum([i \in DOMAIN x.k |-> i * x.k[i].t + x.k[i].d + Len(x.k[i].k)])
Init == /\ g \in {x \in Families : (Hash(x) + Turn) % Shards = Shard}
        /\ dst \in Dims /\ lay \in {(Hash(g) + dst + Turn) % 10, (Hash(g) + 3 * dst + Turn + 5) % 10} /\ out \in {(Hash(g) + dst * 2 + Turn) % 4}
        /\ todo = Seqs(g, Start) /\ rows = <<>> /\ seqs = <<>>
Node == /\ todo # <<>>
        /\ LET n == Head(todo) IN
           /\ rows' = rows \o [i \in 1..n[3] |-> Row(n[2] + i - 1, n[1], dst)]
           /\ seqs' = Append(seqs, [i \in 1..n[3] |-> Row(n[2] + i - 1, n[1], n[1])])
        /\ todo' = Tail(todo) /\ UNCHANGED <<g, dst, lay, out>>
Spec == Init /\ [][Node]_vars

Meaning == \A r \in DOMAIN rows : \A j \in 1..NVals(dst) : rows[r][j] # 0 => rows[r][j] = 10 * (Start + r - 1) + Axes(dst)[j]
XYKept  == \A r \in DOMAIN rows : rows[r][1] # 0 /\ rows[r][2] # 0
Whole   == todo = <<>> => Len(rows) = NCoords(g) /\ Sum([i \in DOMAIN seqs |-> Len(seqs[i])]) = NCoords(g)
\* a written sequence never has a hole
NoHole  == \A i \in DOMAIN seqs : \A r \in DOMAIN seqs[i] : \A j \in DOMAIN seqs[i][r] : seqs[i][r][j] # 0
Emitted == (Emit /\ todo = <<>>) => PrintT(<<"CASE", ToJson([evs |-> ItemEv(<<g>>, Start, 0), dst |-> dst, lay |-> lay, out |-> out, rows |-> rows, seqs |-> seqs])>>)
=============================================================================

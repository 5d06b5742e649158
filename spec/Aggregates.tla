------------------------------ MODULE Aggregates ------------------------------
(***************************************************************************)
(* Aggregate kernels (bounding box, set of geometry types) and row boxes.  *)
(*                                                                         *)
(* A scenario is a set of features that own their coordinates, an order in *)
(* which they arrive and a partition into batches.  The kernel folds one   *)
(* ordinate after the other; the meaning is a minimum / maximum / set over *)
(* everything, in which order and batches do not occur.                    *)
(*                                                                         *)
(* Ordinates are codes: integers stand for themselves / 2, Huge for a huge  *)
(* finite number, Inf for infinity, NaN for not-a-number, which does not   *)
(* take part.                                                              *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Shard, Shards, Seeds, Emit
VARIABLES sc, at, box, types, rows, pos
vars == <<sc, at, box, types, rows, pos>>
Huge == 1000  Inf == 2000  NaN == 5000

Pool(d) == << <<>>, << Pt(d, 1) >>, << Ls(d, 3) >>, << Pg(d, <<3, 2>>) >>, << MPs(d, <<1, 1, 1>>) >>, << MLs(d, <<2, 3>>) >>, << MGs(d, << <<2>>, <<1, 2>> >>) >>,
  << Coll(GC, d, << Pt(d, 1), Coll(GC, d, << Ls(d, 2) >>) >>) >>, << Empty(LS, d) >>, << Empty(PG, d) >>, << Empty(GC, d) >>, << Coll(GC, d, << Empty(LS, d), Pt(d, 1) >>) >>,
  << Pt(d, 0) >>, << Ls(d, 70) >>, << MPs(d, <<0, 1>>) >>, << Ls(d, 1) >>,
  << Coll(GC, d, << Pt(1 + (d % 4), 1) >>) >>, << Coll(GC, 1 + ((d + 1) % 4), << Ls(d, 2), Empty(PT, d), MPs(XY, <<1, 1>>) >>) >>,
  << Coll(GC, d, << Coll(GC, 1 + ((d + 2) % 4), << Pg(d, <<2, 1>>), Pt(XYZM, 1) >>), Ls(XY, 1) >>) >>, << Coll(GC, d, << Empty(GC, XYZM) >>) >> >>
\* one native kind only (so that native arrays can hold the features)
Uniform(k, d) == CASE k = 1 -> << <<>>, << Pt(d, 1) >>, << Pt(d, 1) >> >> [] k = 2 -> << <<>>, << Ls(d, 3) >>, << Empty(LS, d) >>, << Ls(d, 1) >> >>
  [] k = 3 -> << <<>>, << Pg(d, <<3, 2>>) >>, << Empty(PG, d) >>, << Pg(d, <<2>>) >> >> [] k = 4 -> << <<>>, << MPs(d, <<1, 1, 1>>) >>, << Empty(MP, d) >>, << MPs(d, <<1>>) >> >>
  [] k = 5 -> << <<>>, << MLs(d, <<2, 3>>) >>, << Empty(ML, d) >>, << MLs(d, <<1>>) >> >> [] OTHER -> << <<>>, << MGs(d, << <<2>>, <<1, 2>> >>) >>, << Empty(MG, d) >>, << MGs(d, << <<1>> >>) >> >>
Code(m, i, a) ==
  IF a > 2 THEN (IF i % 2 = 0 THEN 950 ELSE -950)      \* Z and M would show up in any box
  ELSE CASE m = 1 -> 7 * i + a  [] m = 2 -> 0 - (7 * i + a)  [] m = 3 -> IF (i + a) % 2 = 0 THEN i + a ELSE 0 - i - a
         [] m = 4 -> -40 - ((i * 5 + a) % 7)  [] m = 5 -> 40 + ((i * 3 + a) % 5)  [] m = 6 -> ((i * 37 + a * 11) % 23) - 11
         [] m = 7 -> IF (i + a) % 3 = 0 THEN NaN ELSE ((i * 19 + a * 7) % 31) - 15
         [] m = 8 -> IF (i + a) % 5 = 1 THEN Inf ELSE IF (i + 2 * a) % 7 = 3 THEN 0 - Inf ELSE i - 20
         [] m = 9 -> IF i % 4 = 0 THEN Huge ELSE IF i % 4 = 1 THEN 0 - Huge ELSE a * 3
         [] OTHER -> IF a = 1 THEN NaN ELSE i
Order(n, o) == CASE o = 1 -> [j \in 1..n |-> j] [] o = 2 -> [j \in 1..n |-> n + 1 - j] [] o = 3 -> [j \in 1..n |-> 1 + ((j + 1) % n)]
                 [] OTHER -> [j \in 1..n |-> IF j % 2 = 0 THEN n - (n % 2) + 2 - j ELSE j]
Init ==
  /\ \E h \in 0..(Seeds - 1) : \E k \in 0..6 : \E m \in 1..10 : \E o \in 1..4 :
       /\ (h + k * 3 + m * 5 + o) % Shards = Shard
       /\ LET n == (h * 5 + m + k) % 8
              d == 1 + ((h + k + m) % 4)
              pick(j) == IF k = 0 THEN LET P == Pool(1 + ((h + j) % 4)) IN P[1 + ((h * 7 + j * (3 + m) + m) % Len(P))]
                         ELSE LET P == Uniform(k, d) IN P[1 + ((h + j * (1 + (m % 2)) + (j \div 3)) % Len(P))]
          IN sc = [items |-> [j \in 1..n |-> pick(j)], order |-> Order(n, o), mode |-> m, k |-> k, d |-> d,
                   cuts |-> {c \in 0..n : (h + c * c + o) % 3 = 0}, pre |-> (h + o) % 3]
  /\ at = 1 /\ box = <<Inf, Inf, 0 - Inf, 0 - Inf>> /\ types = {} /\ rows = <<>> /\ pos = 0

It(j) == sc.items[sc.order[j]]
St(j) == ItemStart(sc.items, sc.order[j])
\* the fold of the kernel: one coordinate at a time
Less(v, w) == v # NaN /\ w # NaN /\ v < w
Take(b, i) == LET x == Code(sc.mode, i, 1)  y == Code(sc.mode, i, 2) IN
  << IF Less(x, b[1]) THEN x ELSE b[1], IF Less(y, b[2]) THEN y ELSE b[2], IF Less(b[3], x) THEN x ELSE b[3], IF Less(b[4], y) THEN y ELSE b[4] >>
Nothing == <<Inf, Inf, 0 - Inf, 0 - Inf>>
Coord == /\ at <= Len(sc.items) /\ pos < ItemCoords(It(at))
         /\ box' = Take(box, St(at) + pos)
         /\ types' = IF pos = 0 THEN types \cup {It(at)[1].t + 1000 * (It(at)[1].d - 1)} ELSE types
         /\ rows' = [rows EXCEPT ![at] = << Take(@[1], St(at) + pos) >>]
         /\ pos' = pos + 1 /\ UNCHANGED <<sc, at>>
Open == /\ at <= Len(sc.items) /\ Len(rows) < at /\ rows' = Append(rows, IF It(at) = <<>> THEN <<>> ELSE << Nothing >>) /\ UNCHANGED <<sc, at, box, types, pos>>
Close == /\ at <= Len(sc.items) /\ Len(rows) = at /\ pos = ItemCoords(It(at)) /\ at' = at + 1 /\ pos' = 0 /\ UNCHANGED <<sc, box, types, rows>>
Next == (Len(rows) >= at /\ Coord) \/ Open \/ Close
Spec == Init /\ [][Next]_vars
Done == at > Len(sc.items)

MinOf(V) == IF V = {} THEN Inf ELSE CHOOSE v \in V : \A w \in V : v <= w
MaxOf(V) == IF V = {} THEN 0 - Inf ELSE CHOOSE v \in V : \A w \in V : v >= w
Values(js, a) == {Code(sc.mode, i, a) : i \in UNION {ItemStart(sc.items, j)..(ItemStart(sc.items, j) + ItemCoords(sc.items[j]) - 1) : j \in js}} \ {NaN}
BoxOf(js) == <<MinOf(Values(js, 1)), MinOf(Values(js, 2)), MaxOf(Values(js, 1)), MaxOf(Values(js, 2))>>
OrderFree == Done => /\ box = BoxOf(DOMAIN sc.items)
                     /\ types = {sc.items[j][1].t + 1000 * (sc.items[j][1].d - 1) : j \in {x \in DOMAIN sc.items : ItemCoords(sc.items[x]) > 0}}
RowBoxes == \A j \in 1..(at - 1) : rows[j] = IF It(j) = <<>> THEN <<>> ELSE << BoxOf({sc.order[j]}) >>
IsOrder == {sc.order[j] : j \in DOMAIN sc.order} = DOMAIN sc.items

Maxc == Sum([j \in DOMAIN sc.items |-> ItemCoords(sc.items[j])])
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson(
  [k |-> sc.k, d |-> sc.d, mode |-> sc.mode, pre |-> sc.pre, cuts |-> SetToSeq(sc.cuts), box |-> box, types |-> SetToSeq(types), rows |-> rows,
   codes |-> [i \in 1..Maxc |-> [a \in 1..4 |-> Code(sc.mode, i - 1, a)]],
   stream |-> [j \in DOMAIN sc.items |-> [g |-> It(j), wkb |-> IF It(j) = <<>> THEN <<>> ELSE WkbOf(It(j)[1], St(j)),
               wkt |-> IF It(j) = <<>> THEN <<>> ELSE WktOf(It(j)[1], St(j), FALSE), evs |-> ItemEv(It(j), St(j), 0)]]])>>)
=============================================================================

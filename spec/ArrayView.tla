----------------------------- MODULE ArrayView -----------------------------
(***************************************************************************)
(* Reading (slices of) native Arrow arrays.                                *)
(*                                                                         *)
(* A scenario is a physical array: nested list arrays, each with its own   *)
(* array offset, its own unused elements before and after the used ones,   *)
(* a child whose first used element need not be the first, and a leaf of   *)
(* coordinates whose ordinates are child arrays with offsets of their own. *)
(* Every stored number encodes its physical position, so that reading any  *)
(* other position is visible.                                              *)
(*                                                                         *)
(* Arrow defines what element i of such an array is (Elem below); a        *)
(* compact array would hold just the items (Meaning).  The reader is the   *)
(* machine: per level an absolute offset, pointers applied before reading. *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS Suite, Shard, Shards, Emit
VARIABLES cs, i, evs, reads
vars == <<cs, i, evs, reads>>

BOX == 990
Levels(k) == CASE k \in {PT, BOX} -> 0 [] k \in {LS, MP} -> 1 [] k \in {PG, ML} -> 2 [] OTHER -> 3

(* ------------------------------ contents ------------------------------- *)
\* an item: [v: valid?, x: nested counts].  A null element may still cover elements of its child.
It(v, x) == [v |-> v, x |-> x]
Pool(k) == CASE Levels(k) = 0 -> << 1, 1 >>
             [] Levels(k) = 1 -> << 2, 0, 1, 3 >>
             [] Levels(k) = 2 -> << <<1, 2>>, <<>>, <<0>>, <<2>>, <<3, 0, 1>> >>
             [] OTHER         -> << << <<2, 1>>, <<1>> >>, <<>>, << <<>> >>, << <<0>>, <<1, 0, 2>> >>, << <<1>>, <<>>, <<2>> >> >>
\* the item sequence with code c: length 1..5, every element and its validity picked by the code
ItemsOf(k, c) ==
  LET p == Pool(k)  n == (c % 5) + 1 IN
  [j \in 1..n |-> LET z == (c \div 5) * (2 * j + 3) + j * j + c IN It((z + j) % 4 # 2 \/ c % 7 = 3, p[(z % Len(p)) + 1])]
\* counts at level l (1 = the top array): how many children each logical element has
RECURSIVE CountsAt(_, _)
CountsAt(xs, l) == \* xs: contents of the elements of a level
  IF l = 1 THEN [j \in DOMAIN xs |-> xs[j]] ELSE CountsAt(Flat(xs), l - 1)
Counts(items, L, l) ==
  LET xs == [j \in DOMAIN items |-> items[j].x] IN
  IF l = L THEN CountsAt(xs, l)
  ELSE LET sub == IF l = 1 THEN xs ELSE IF l = 2 THEN Flat(xs) ELSE Flat(Flat(xs))
       IN [j \in DOMAIN sub |-> Len(sub[j])]
NAt(items, L, l) == IF l = 1 THEN Len(items) ELSE Sum(Counts(items, L, l - 1))   \* elements at level l

(* --------------------------- physical arrays --------------------------- *)
\* o[l], b[l], t[l] for l in 1..L+1: array offset, unused logical elements in front (b[1] = 0) and behind
OffsBuf(s, l) ==
  LET L == Levels(s.kind)  p == s.o[l] + s.b[l]  bn == s.b[l + 1]
      f == IF p = 0 THEN bn ELSE MinI(bn, s.o[l])
      cnt == Counts(s.items, L, l)  n == NAt(s.items, L, l)
  IN [j \in 1..p |-> f + ((bn - f) * (j - 1)) \div p]
     \o [j \in 1..(n + 1) |-> bn + SumTo(cnt, j - 1)]
     \o [j \in 1..s.t[l] |-> bn + Sum(cnt) + MinI(j, s.t[l + 1])]
LenAt(s, l) == s.b[l] + NAt(s.items, Levels(s.kind), l) + s.t[l]
LeafLen(s) == LenAt(s, Levels(s.kind) + 1)
NOrd(s) == IF s.kind = BOX THEN 2 * NVals(s.d) ELSE NVals(s.d)
COff(s, j) == s.c[((j - 1) % 4) + 1]
\* value stored at physical position p of ordinate buffer j (1-based); interleaved: j = 1, p counts ordinates.
\* Every third coordinate of a box is stored with swapped x bounds.
Stored(s, j, p) ==
  IF s.kind = BOX THEN (IF p % 3 = 2 /\ j \in {1, 3} THEN 10 * p + (4 - j) ELSE 10 * p + j)
  ELSE IF s.inter THEN p + 1 ELSE 10 * p + Axes(s.d)[j]
OrdLen(s, j) == IF s.inter THEN s.c[1] + (s.o[Levels(s.kind) + 1] + LeafLen(s)) * NOrd(s)
                ELSE COff(s, j) + s.o[Levels(s.kind) + 1] + LeafLen(s)

(* ------------------------- what the array means ------------------------ *)
\* physical position of ordinate j of logical leaf element q
At(s, j, q) == IF s.inter THEN s.c[1] + (s.o[Levels(s.kind) + 1] + q) * NOrd(s) + j - 1
               ELSE COff(s, j) + s.o[Levels(s.kind) + 1] + q
Coord(s, q) == [j \in 1..NOrd(s) |-> Stored(s, IF s.inter THEN 1 ELSE j, At(s, j, q))]
\* logical element e of the array at level l, as nested sequences of coordinates
RECURSIVE Elem(_, _, _)
Elem(s, l, e) ==
  IF l > Levels(s.kind) THEN Coord(s, e)
  ELSE LET ob == OffsBuf(s, l)
           lo == ob[s.o[l] + e + 1]  hi == ob[s.o[l] + e + 2]
       IN [m \in 1..(hi - lo) |-> Elem(s, l + 1, lo + m - 1)]
V(s, cos) == <<"v", NVals(s.d), cos>>
CoordsEv(s, cos) == IF cos = <<>> THEN <<>> ELSE << V(s, cos) >>
Gs(t, d) == <<"gs", t, d>>
Ge == <<"ge">>
BoxEv(s, c) ==
  << Gs(PG, XY) >> \o (IF c[1] > c[3] \/ c[2] > c[4] THEN <<>>
                       ELSE << <<"rs">>, <<"v", 2, << <<c[1], c[2]>>, <<c[3], c[2]>>, <<c[3], c[4]>>, <<c[1], c[4]>>, <<c[1], c[2]>> >> >>, <<"re">> >>)
  \o << Ge >>
PolyEv(s, e) == << Gs(PG, s.d) >> \o Flat([m \in DOMAIN e |-> << <<"rs">> >> \o CoordsEv(s, e[m]) \o << <<"re">> >>]) \o << Ge >>
GeomEv(s, e) ==
  CASE s.kind = PT  -> << Gs(PT, s.d), V(s, << e >>), Ge >>
    [] s.kind = BOX -> BoxEv(s, e)
    [] s.kind = LS  -> << Gs(LS, s.d) >> \o CoordsEv(s, e) \o << Ge >>
    [] s.kind = PG  -> PolyEv(s, e)
    [] s.kind = MP  -> << Gs(MP, s.d) >> \o Flat([m \in DOMAIN e |-> << Gs(PT, s.d), V(s, << e[m] >>), Ge >>]) \o << Ge >>
    [] s.kind = ML  -> << Gs(ML, s.d) >> \o Flat([m \in DOMAIN e |-> << Gs(LS, s.d) >> \o CoordsEv(s, e[m]) \o << Ge >>]) \o << Ge >>
    [] OTHER        -> << Gs(MG, s.d) >> \o Flat([m \in DOMAIN e |-> PolyEv(s, e[m])]) \o << Ge >>
Feat(s, e) == << <<"fs">> >> \o (IF s.items[e + 1].v THEN GeomEv(s, Elem(s, 1, e)) ELSE << <<"nul">> >>) \o << <<"fe">> >>
Want(s) == Flat([j \in 1..s.rl |-> Feat(s, s.ro + j - 1)])

\* the same nested counts that the compact array would have
RECURSIVE ShapeOf(_, _)
ShapeOf(e, l) == IF l = 1 THEN Len(e) ELSE [m \in DOMAIN e |-> ShapeOf(e[m], l - 1)]
Compact == \A e \in 0..(Len(cs.items) - 1) :
   LET L == Levels(cs.kind) IN L = 0 \/ ShapeOf(Elem(cs, 1, e), L) = cs.items[e + 1].x

(* -------------------------------- reader ------------------------------- *)
\* The reader keeps for every level the raw offsets and adds the array offset of the next level
\* to what it reads; ordinates are addressed from a pointer already moved by the child's offset.
ROff(l, e) == OffsBuf(cs, l)[e + 1]
RCoord(q) == [j \in 1..NOrd(cs) |-> Stored(cs, IF cs.inter THEN 1 ELSE j,
                (IF cs.inter THEN cs.c[1] + j - 1 ELSE COff(cs, j)) + q * (IF cs.inter THEN NOrd(cs) ELSE 1))]
RECURSIVE RElem(_, _)
RElem(l, e) == \* e is a raw index at level l
  IF l > Levels(cs.kind) THEN RCoord(e)
  ELSE LET lo == ROff(l, e) + cs.o[l + 1]  n == ROff(l, e + 1) - ROff(l, e)
       IN [m \in 1..n |-> RElem(l + 1, lo + m - 1)]
RECURSIVE RReads(_, _)
RReads(l, e) ==
  IF l > Levels(cs.kind) THEN {<<"x", j, At(cs, j, e - cs.o[l])>> : j \in 1..NOrd(cs)}
  ELSE {<<"o", l, e>>, <<"o", l, e + 1>>}
       \cup UNION {RReads(l + 1, ROff(l, e) + cs.o[l + 1] + m) : m \in 0..(ROff(l, e + 1) - ROff(l, e) - 1)}
Visit ==
  /\ i < cs.rl
  /\ LET e == cs.ro + i IN
     /\ evs' = evs \o << <<"fs">> >> \o (IF cs.items[e + 1].v THEN GeomEv(cs, RElem(1, cs.o[1] + e)) ELSE << <<"nul">> >>) \o << <<"fe">> >>
     /\ reads' = IF cs.items[e + 1].v THEN reads \cup RReads(1, cs.o[1] + e) ELSE reads
  /\ i' = i + 1 /\ UNCHANGED cs
Next == Visit

(* ------------------------------ scenarios ------------------------------ *)
Pick(seq, n) == seq[(n % Len(seq)) + 1]
OSets == << <<0, 0, 0, 0>>, <<2, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 3>>, <<1, 2, 3, 4>>, <<9, 1, 0, 2>>, <<3, 0, 5, 1>>, <<0, 1, 1, 1>>, <<17, 4, 2, 7>> >>
BSets == << <<0, 0, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 3, 0>>, <<0, 0, 0, 2>>, <<0, 1, 2, 3>>, <<0, 4, 1, 0>>, <<0, 3, 3, 5>> >>
TSets == << <<0, 0, 0, 0>>, <<0, 1, 1, 1>>, <<0, 0, 0, 2>>, <<0, 2, 0, 1>> >>
CSets == << <<0, 0, 0, 0>>, <<1, 1, 1, 1>>, <<0, 2, 1, 3>>, <<5, 0, 3, 1>> >>
Fit(s, l) == SubSeq(s, 1, l)
Scenario(k, d, inter, ci, co, cb, ro, rl) ==
  LET L == Levels(k) + 1  it == ItemsOf(k, ci) IN
  [kind |-> k, d |-> d, inter |-> inter, items |-> it, o |-> Fit(Pick(OSets, co), L), b |-> Fit(Pick(BSets, cb), L),
   t |-> Fit(Pick(TSets, ci + co), L), c |-> Pick(CSets, ci + co + cb), ro |-> ro, rl |-> rl]
Ranges(n) == {<<r, m>> \in (0..n) \X (0..n) : r + m <= n}
Kinds == {PT, LS, PG, MP, ML, MG, BOX}
Codes == CASE Suite = "quick" -> 0..14 [] Suite = "full" -> 0..44 [] OTHER -> 0..9
ScenOf(k) ==
  UNION {UNION {UNION {
     {Scenario(k, IF k = BOX THEN 1 ELSE ((ci + co + k + Shard) % 4) + 1, IF k = BOX THEN FALSE ELSE (ci + cb + co \div 2) % 2 = 0, ci, co, cb, r[1], r[2])
        : r \in {x \in Ranges(Len(ItemsOf(k, ci))) : Suite = "full" \/ x[1] = 0 \/ x[1] + x[2] = Len(ItemsOf(k, ci)) \/ (x[1] + x[2] + ci) % 3 = 0}}
     : cb \in {y \in 0..6 : (ci + co + y + k + Shard) % Shards = 0}} : co \in 0..9} : ci \in Codes}
Init == (\E k \in Kinds : cs \in ScenOf(k)) /\ i = 0 /\ evs = <<>> /\ reads = {}
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties ------------------------------ *)
Done == i = cs.rl
Faithful == Done => evs = Want(cs)
InBounds == \A r \in reads : IF r[1] = "o" THEN r[3] + 1 <= Len(OffsBuf(cs, r[2])) ELSE r[3] >= 0 /\ r[3] < OrdLen(cs, IF cs.inter THEN 1 ELSE r[2])
Monotone == \A l \in 1..Levels(cs.kind) : LET ob == OffsBuf(cs, l) IN
   /\ \A j \in 1..(Len(ob) - 1) : ob[j] <= ob[j + 1]
   /\ ob[Len(ob)] <= LenAt(cs, l + 1) /\ Len(ob) = cs.o[l] + LenAt(cs, l) + 1
Balanced == Done => LET es == [j \in DOMAIN evs |-> IF evs[j][1] = "v" THEN <<"c", evs[j][2], 0, Len(evs[j][3])>> ELSE evs[j]]
                        fin == FoldLeft(LAMBDA st, e : IF st.ok /\ ProtoEnabled(st.p, e) THEN [ok |-> TRUE, p |-> ProtoStep(st.p, e)] ELSE [st EXCEPT !.ok = FALSE],
                                        [ok |-> TRUE, p |-> ProtoInit], es)
                    IN fin.ok /\ fin.p.stk = <<>>
Emitted == (Emit /\ Done) =>
   PrintT(<<"CASE", ToJson([kind |-> cs.kind, d |-> cs.d, inter |-> cs.inter, o |-> cs.o, c |-> [j \in 1..NOrd(cs) |-> COff(cs, j)],
       valid |-> [j \in DOMAIN cs.items |-> IF cs.items[j].v THEN 1 ELSE 0],
       lens |-> [l \in 1..(Levels(cs.kind) + 1) |-> LenAt(cs, l)], offs |-> [l \in 1..Levels(cs.kind) |-> OffsBuf(cs, l)],
       ords |-> IF cs.inter THEN << [p \in 1..OrdLen(cs, 1) |-> Stored(cs, 1, p - 1)] >>
                ELSE [j \in 1..NOrd(cs) |-> [p \in 1..OrdLen(cs, j) |-> Stored(cs, j, p - 1)]],
       ro |-> cs.ro, rl |-> cs.rl, evs |-> evs])>>)
=============================================================================

------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* C08: chains of conversions.                                             *)
(*                                                                         *)
(* The state is an array: its encoding and what a reader sees of each row  *)
(* (<<>> for a null, << tree >> otherwise, with every ordinate explicit).  *)
(* A step reads it and writes it to another encoding that can represent    *)
(* all rows.  Seen(e, g) is the only thing an encoding does to a geometry: *)
(*   WKB        an empty point is one of NaNs                              *)
(*   WKT        nothing                                                    *)
(*   native k,d no empty parts, promotion to and from multi types of one,  *)
(*              ordinates that d lacks are dropped, new ones are NaN       *)
(* Invariants: length and nulls never change, neither does the canonical   *)
(* form of any row (what is left of it without empties and promotions),    *)
(* an encoding is settled by one pass through it.                          *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Suite, Steps, Shard, Shards, Emit
VARIABLES rows, enc, path, first
vars == <<rows, enc, path, first>>
NAN == -1
G(t, d, c, r, k) == [t |-> t, d |-> d, c |-> c, r |-> r, k |-> k]
CoordAt(d, i) == [j \in 1..NVals(d) |-> 10 * i + Axes(d)[j]]
Run(d, s, n) == [m \in 1..n |-> CoordAt(d, s + m - 1)]
\* a tree with numbered coordinates from s, ordinates written out
RECURSIVE Label(_, _)
Label(g, s) == G(g.t, g.d, Run(g.d, s, g.n), [j \in DOMAIN g.r |-> Run(g.d, RingStart(g, s, j), g.r[j])],
                 [j \in DOMAIN g.k |-> Label(g.k[j], KidStart(g, s, j))])
NaNs(d) == [j \in 1..NVals(d) |-> NAN]
PosOf(d, a) == IF a = 3 THEN (IF d \in {XYZ, XYZM} THEN 3 ELSE 0) ELSE IF a = 4 THEN (CASE d = XYM -> 3 [] d = XYZM -> 4 [] OTHER -> 0) ELSE a
Cast(co, from, to) == IF from = to THEN co ELSE [j \in 1..NVals(to) |-> LET p == PosOf(from, Axes(to)[j]) IN IF p = 0 THEN NAN ELSE co[p]]
CastAll(cos, from, to) == [m \in DOMAIN cos |-> Cast(cos[m], from, to)]
NE(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)

RECURSIVE Count(_)
Count(g) == Len(g.c) + Sum([j \in DOMAIN g.r |-> Len(g.r[j])]) + Sum([j \in DOMAIN g.k |-> Count(g.k[j])])
IsEmpty(g) == g.c = <<>> /\ g.r = <<>> /\ g.k = <<>>

(* ------------------------------ encodings ------------------------------ *)
RECURSIVE SeenWkb(_)
SeenWkb(g) == IF g.t = PT /\ g.c = <<>> THEN [g EXCEPT !.c = << NaNs(g.d) >>] ELSE [g EXCEPT !.k = [j \in DOMAIN g.k |-> SeenWkb(g.k[j])]]
Can(g, k) == \/ IsEmpty(g)
             \/ CASE k = 1 -> g.t = PT \/ (g.t = MP /\ Count(g) <= 1)
                  [] k = 2 -> g.t = LS \/ (g.t = ML /\ Len(g.k) <= 1)
                  [] k = 3 -> g.t = PG \/ (g.t = MG /\ Len(g.k) <= 1)
                  [] k = 4 -> g.t \in {PT, MP}
                  [] k = 5 -> g.t \in {LS, ML}
                  [] OTHER -> g.t \in {PG, MG}
\* coordinate sequences with the dimensions they had, in order
RECURSIVE Seqs(_, _)
Seqs(g, d) == NE(<< CastAll(g.c, g.d, d) >> \o [j \in DOMAIN g.r |-> CastAll(g.r[j], g.d, d)]) \o Flat([j \in DOMAIN g.k |-> Seqs(g.k[j], d)])
Polys(g, d) == IF g.t = PG THEN << Seqs(g, d) >> ELSE IF g.t = MG THEN [j \in DOMAIN g.k |-> Seqs(g.k[j], d)] ELSE <<>>
SeenNat(g, k, d) ==
  LET ss == IF Count(g) = 0 THEN <<>> ELSE Seqs(g, d)
      all == Flat(ss)
      ps == IF Count(g) = 0 THEN <<>> ELSE NE(Polys(g, d))
  IN CASE k = 1 -> G(PT, d, IF all = <<>> THEN << NaNs(d) >> ELSE all, <<>>, <<>>)
       [] k = 2 -> G(LS, d, all, <<>>, <<>>)
       [] k = 3 -> G(PG, d, <<>>, ss, <<>>)
       [] k = 4 -> G(MP, d, <<>>, <<>>, [j \in DOMAIN all |-> G(PT, d, << all[j] >>, <<>>, <<>>)])
       [] k = 5 -> G(ML, d, <<>>, <<>>, [j \in DOMAIN ss |-> G(LS, d, ss[j], <<>>, <<>>)])
       [] OTHER -> G(MG, d, <<>>, <<>>, [j \in DOMAIN ps |-> G(PG, d, <<>>, ps[j], <<>>)])
Wkb == [e |-> "wkb", k |-> 0, d |-> 0]  Wkt == [e |-> "wkt", k |-> 0, d |-> 0]
NatE(k, d) == [e |-> "nat", k |-> k, d |-> d]
Encs == {Wkb, Wkt} \cup {NatE(k, d) : k \in 1..6, d \in Dims}
Holds(e, g) == e.e # "nat" \/ Can(g, e.k)
Seen(e, g) == CASE e.e = "wkb" -> SeenWkb(g) [] e.e = "wkt" -> g [] OTHER -> SeenNat(g, e.k, e.d)
Row(e, r) == IF r = <<>> THEN <<>> ELSE << Seen(e, r[1]) >>

(* -------------------------------- meaning ------------------------------ *)
Flat2(cos) == [m \in DOMAIN cos |-> << cos[m][1], cos[m][2] >>]
Real(cos) == SelectSeq(Flat2(cos), LAMBDA c : c # << NAN, NAN >>)
RECURSIVE Canon(_)
Canon(g) ==
  CASE g.t \in {PT, MP} -> LET cs == Real(Flat(Seqs(g, XY))) IN IF cs = <<>> THEN <<>> ELSE << <<"p", cs>> >>
    [] g.t \in {LS, ML} -> LET ss == [j \in DOMAIN Seqs(g, XY) |-> Flat2(Seqs(g, XY)[j])] IN IF ss = <<>> THEN <<>> ELSE << <<"l", ss>> >>
    [] g.t \in {PG, MG} -> LET ps == NE(Polys(g, XY)) IN IF ps = <<>> THEN <<>> ELSE << <<"a", [j \in DOMAIN ps |-> [m \in DOMAIN ps[j] |-> Flat2(ps[j][m])]]>> >>
    [] OTHER -> LET ks == Flat([j \in DOMAIN g.k |-> Canon(g.k[j])]) IN IF ks = <<>> THEN <<>> ELSE << <<"c", ks>> >>

(* ------------------------------- scenarios ----------------------------- *)
Alts == (UNION {SimpleTrees(d) : d \in Dims}) \cup Coll2(XYM) \cup Coll1(XYZM) \cup Mixed
AltSeq == SetToSeq(Alts)
N == Len(AltSeq)
\* rows drawn from trees one kind of array can hold, or from all
Of(k) == IF k = 7 THEN AltSeq ELSE SelectSeq(AltSeq, LAMBDA g : Can(Label(g, 0), k))
OfTable == [k \in 1..7 |-> Of(k)]
Lengths == <<3, 1, 4, 2, 7, 1, 5, 0, 2, 12>>
Mix(a, b) == ((a * 131 + b * 31 + 7) * 17 + a * b) % 9973
ItemsOf(k, s) == [j \in 1..Lengths[1 + (Mix(s, k) % 10)] |-> LET m == Mix(s * 13 + j, k + j * 7) IN
                    IF m % 5 = 0 THEN <<>> ELSE << OfTable[k][1 + ((m * 37 + s * 11 + j * 101) % Len(OfTable[k]))] >>]
FirstOf(items) == [items |-> items, rows |-> [j \in DOMAIN items |-> IF items[j] = <<>> THEN <<>> ELSE << Label(items[j][1], ItemStart(items, j)) >>]]
Begin(items, e0) == /\ first = FirstOf(items) /\ rows = first.rows
                    /\ enc = [e |-> "none", k |-> 0, d |-> 0] /\ path = <<>>
Init == IF Suite = "pair"
        THEN \E n \in 1..N : n % Shards = Shard /\ Begin(<< << AltSeq[n] >>, <<>>, << AltSeq[n] >> >>, 0)
        ELSE \E k \in 1..7 : \E s \in 1..200 : (s * 7 + k) % Shards = Shard /\ Begin(ItemsOf(k, s), 0)
HoldsAll(e) == \A j \in DOMAIN rows : rows[j] # <<>> => Holds(e, rows[j][1])
Size == Sum([j \in DOMAIN rows |-> IF rows[j] = <<>> THEN 1 ELSE Count(rows[j][1]) + 2])
Pick(e) == Suite # "pair" \/ (Size + Len(path) * 5 + (CASE e.e = "wkb" -> 0 [] e.e = "wkt" -> 1 [] OTHER -> e.k + e.d * 3)) % 5 \in {0, 2}
Convert(e) == /\ Len(path) < Steps /\ HoldsAll(e) /\ Pick(e)
              /\ rows' = [j \in DOMAIN rows |-> Row(e, rows[j])] /\ enc' = e /\ UNCHANGED first
              /\ path' = Append(path, [e |-> e, rows |-> rows'])
Finish == Len(path) = Steps /\ path' = Append(path, [e |-> [e |-> "end", k |-> 0, d |-> 0], rows |-> <<>>]) /\ UNCHANGED <<rows, enc, first>>
Next == (\E e \in Encs : Convert(e)) \/ Finish
Spec == Init /\ [][Next]_vars

Same == /\ Len(rows) = Len(first.rows)
        /\ \A j \in DOMAIN rows : /\ (rows[j] = <<>>) = (first.rows[j] = <<>>)
                                  /\ rows[j] # <<>> => Canon(rows[j][1]) = Canon(first.rows[j][1])
Settled == \A j \in DOMAIN rows : (enc.e # "none" /\ rows[j] # <<>>) => Holds(enc, rows[j][1]) /\ Seen(enc, rows[j][1]) = rows[j][1]
\* simple arrays become arrays of multi types of one and the other way round without loss
Promoted == \A j \in DOMAIN rows : (enc.e = "nat" /\ enc.k \in {2, 3} /\ rows[j] # <<>>) => SeenNat(SeenNat(rows[j][1], enc.k + 3, enc.d), enc.k, enc.d) = rows[j][1]

(* -------------------------------- output ------------------------------- *)
Cs(cos) == IF cos = <<>> THEN <<>> ELSE << <<"v", cos>> >>
RECURSIVE EvOf(_)
EvOf(g) == << <<"gs", g.t, g.d>> >> \o Cs(g.c) \o Flat([j \in DOMAIN g.r |-> << <<"rs">> >> \o Cs(g.r[j]) \o << <<"re">> >>])
           \o Flat([j \in DOMAIN g.k |-> EvOf(g.k[j])]) \o << <<"ge">> >>
EvRows(rs) == Flat([j \in DOMAIN rs |-> << <<"fs">> >> \o (IF rs[j] = <<>> THEN << <<"nul">> >> ELSE EvOf(rs[j][1])) \o << <<"fe">> >>])
Real1(p) == p.e.e # "end"
Emitted == (Emit /\ Len(path) = Steps + 1) =>
   PrintT(<<"CASE", ToJson([evs |-> Flat([j \in DOMAIN first.items |-> ItemEv(first.items[j], ItemStart(first.items, j), 0)]), n |-> Len(rows),
       wkb |-> [j \in DOMAIN first.items |-> IF first.items[j] = <<>> THEN <<>> ELSE WkbOf(first.items[j][1], ItemStart(first.items, j))],
       wkt |-> [j \in DOMAIN first.items |-> IF first.items[j] = <<>> THEN <<>> ELSE WktOf(first.items[j][1], ItemStart(first.items, j), FALSE)],
       path |-> [m \in 1..Steps |-> [e |-> path[m].e.e, k |-> path[m].e.k, d |-> path[m].e.d, evs |-> EvRows(path[m].rows)]]])>>)
=============================================================================

------------------------------ MODULE Refusal ------------------------------
(***************************************************************************)
(* C12: a writing session in which some elements are refused.              *)
(*                                                                         *)
(* The session is a transaction system: an element is tentative from its   *)
(* start to its end; its end commits it, a refusal followed by anything    *)
(* else (the next start, a finish, a whole-geometry append) discards it.   *)
(* Elements come through the callbacks, as whole-geometry appends, or from *)
(* a reader that meets damaged text or bytes half way.  Whether a writer   *)
(* refuses an unusual element may be left to it (must = FALSE), so both    *)
(* outcomes are explored and the observed one selects the prediction; a    *)
(* caller that ends an element in spite of a refusal may or may not get it.*)
(*                                                                         *)
(* Target 0 WKB, 10 / 11 WKT (nested / flat multipoints), 1..6 native.     *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Target, MaxItems, Shard, Shards, Emit
VARIABLES sc, pc, open, rows, batches, res
vars == <<sc, pc, open, rows, batches, res>>
WB == INSTANCE WkbW
WT == INSTANCE WktW
NW == INSTANCE NatW
Native == Target \in 1..6

(* ------------------------------ elements ------------------------------- *)
Good(k, v) == CASE k = 1 -> Pt(XY, 1)
  [] k = 2 -> Ls(XY, 1 + v) [] k = 3 -> Pg(XY, IF v = 1 THEN <<2>> ELSE <<1, 3>>)
  [] k = 4 -> MPs(XY, IF v = 1 THEN <<1>> ELSE <<1, 1>>) [] k = 5 -> MLs(XY, IF v = 1 THEN <<2>> ELSE <<1, 2>>)
  [] k = 6 -> MGs(XY, IF v = 1 THEN << <<2>> >> ELSE << <<1>>, <<2, 1>> >>)
  [] OTHER -> IF v = 1 THEN Pg(XY, <<2, 1>>) ELSE Coll(GC, XY, << Pt(XY, 1), MPs(XY, <<1, 1>>), Empty(GC, XY) >>)
Item(a) == CASE a = 1 -> << Good(Target, 1) >> [] a = 2 -> << Good(Target, 2) >> [] OTHER -> <<>>

\* intruders: [via, ev, txt, keep, nodes, must]
Bad(via, ev, txt, keep, must) == [via |-> via, ev |-> ev, txt |-> txt, keep |-> keep, must |-> must]
Feat(evs) == << <<"fs">> >> \o evs \o << <<"fe">> >>
B0 == 100   \* coordinates of intruders start here
Calls(ev, must) == Bad("calls", Feat(ev), "", 0, must)
Deep == {Ev(Tower(m, XY, g), B0, 0) : m \in {32, 33, 40}, g \in {Pt(XY, 1), Pg(XY, <<2>>), Empty(GC, XY)}}
DeepMore == {Ev(Tower(m, XY, g), B0, 0) : m \in {29, 30, 31}, g \in {Pg(XY, <<2>>), MPs(XY, <<1, 1>>), Ls(XY, 2)}}
\* geometry types and dimensions that do not exist, at the top and inside a collection
Unknown == { << <<"gs", t, d>> >> \o << C(XY, B0, 2) >> \o << <<"ge">> >> : t \in {0, 1, 8}, d \in {0, 5} } 
           \cup { << <<"gs", GC, XY>>, <<"gs", t, XY>>, <<"ge">>, <<"ge">> >> : t \in {0, 9} }
           \cup { << <<"gs", LS, XYZ>>, C(XYZ, B0, 2), <<"ge">>, <<"gs", GC, XY>>, <<"gs", 2, d>>, <<"ge">>, <<"ge">> >> : d \in {0, 5} }
Trees1 == {Pt(XY, 1), Ls(XY, 2), Ls(XY, 3), Pg(XY, <<2, 1>>), MPs(XY, <<1, 1>>), MLs(XY, <<2, 1>>), MLs(XY, <<1>>), MGs(XY, << <<1>>, <<2>> >>), MGs(XY, << <<2>> >>),
           Coll(GC, XY, << Ls(XY, 2), Pt(XY, 1) >>), Coll(GC, XY, << Pt(XY, 1), Ls(XY, 2) >>), Coll(GC, XY, << Pt(XY, 1), Pt(XY, 1) >>),
           Coll(GC, XY, << Ls(XY, 1), Ls(XY, 2) >>), Coll(GC, XY, << Pg(XY, <<2>>), Pt(XY, 1), MPs(XY, <<1, 1>>) >>),
           Coll(GC, XY, << MLs(XY, <<2, 2>>), Pg(XY, <<1>>) >>), Coll(GC, XY, << Coll(GC, XY, << Ls(XY, 2) >>), Ls(XY, 1) >>)}
NotFor(k) == {g \in Trees1 : ~NW!Representable(g, k)}
\* coordinates that are not those the geometry announced
Mismatch == { << <<"gs", Target, d>> >> \o << C(e, B0, 1) >> \o << <<"ge">> >> : d \in Dims, e \in {f \in Dims : TRUE} }
NRings(g) == IF g.t = PG THEN Len(g.r) ELSE IF g.t = ML THEN Len(g.k) ELSE IF g.t = MG THEN Sum([i \in DOMAIN g.k |-> Len(g.k[i].r)]) ELSE 0
MustNat(g, k) == (k = 1 /\ NCoords(g) > 1) \/ (k = 2 /\ NRings(g) > 1)
Texts == {"", "POINT (1 2", "POINT (1", "POINT (1 2, 3 4)", "LINESTRING (1 2, 3", "LINESTRING (1 2, 3 4, x", "POLYGON ((1 2, 3 4), (5", "POLYGON ((1 2), (3 4)",
          "MULTIPOINT (1 2, (3 4", "MULTIPOINT ((1 2), (3", "MULTILINESTRING ((1 2, 3 4), (5 6, 7", "MULTILINESTRING ((1 2), EMPT", "MULTIPOLYGON (((1 2, 3 4)), ((5 6), (7",
          "GEOMETRYCOLLECTION (POINT (1 2), LINESTRING (3", "GEOMETRYCOLLECTION (POINT (1 2), POIN (3 4))", "POINT ZM (1 2 3)", "POINT (1 2) x", "LINESTRING Z (1 2 3, 4 5)",
          "MULTIPOINT (1 2, 3 4", "POLYGON ((1 2, 3 4)) (", "MULTIPOLYGON (((1 2), (3 4)), ((5 6)", "NULL", "LINESTRING EMPTY,"}
Truncated == { [g |-> g, keep |-> q] : g \in {Pt(XY, 1), Ls(XYZ, 3), Pg(XY, <<2, 2>>), MPs(XY, <<1, 1>>), MLs(XY, <<2, 2>>), MGs(XY, << <<2>>, <<1, 1>> >>),
                                              Coll(GC, XY, << Ls(XY, 2), Pt(XY, 1) >>)}, q \in {4, 40, 80, 99} }
Readers == {Bad("text", <<>>, t, 0, TRUE) : t \in Texts}
           \cup {Bad("bytes", WkbOf(x.g, B0), "", MinI((Bytes(WkbOf(x.g, B0)) * x.keep) \div 100, Bytes(WkbOf(x.g, B0)) - 1), TRUE) : x \in Truncated}
Appends == IF Native THEN {Bad("append", Feat(Ev(g, B0, 0)), "", 0, ~NW!AppendOK(g, Target)) : g \in NotFor(Target)}
           ELSE IF Target = 0 THEN {Bad("nodes", <<>>, t, 0, TRUE) : t \in {"0:0", "8:1", "7:2 1:1 9:0", "3:2 2:2 2:1 0:0" , "7:3 2:4 6:1 0:0 1:1"}}
           ELSE {}
Intruders ==
  Readers \cup Appends
  \cup (IF Target = 0 THEN {Calls(e, TRUE) : e \in Deep} \cup {Calls(e, FALSE) : e \in DeepMore}
        ELSE IF ~Native THEN {Calls(e, TRUE) : e \in {Ev(Tower(m, XY, g), B0, 0) : m \in {33, 40}, g \in {Pt(XY, 1), Empty(GC, XY)}}}
                             \cup {Calls(e, FALSE) : e \in DeepMore} \cup {Calls(e, TRUE) : e \in Unknown}
        ELSE {Calls(Ev(g, B0, 0), MustNat(g, Target)) : g \in NotFor(Target)}
             \cup {Calls(e, e[1][3] # e[2][2] /\ NVals(e[1][3]) # NVals(e[2][2])) : e \in Mismatch})
Hows(b) == IF b.via = "calls" THEN {"stop", "end", "all"} ELSE {"stop"}

(* ------------------------------ scenarios ------------------------------ *)
\* patterns over 1, 2 (elements), 3 (null), 9 (the intruder)
Patterns == {p \in SeqsFrom({1, 2, 3, 9}, 1, MaxItems) : \E i \in DOMAIN p : p[i] = 9 /\ Cardinality({j \in DOMAIN p : p[j] = 9}) <= 2}
Vias == IF Native \/ Target = 0 THEN {"v", "a"} ELSE {"v"}   \* how the other elements are written
BadSeq == SetToSeq(Intruders)
PatSeq == SetToSeq(Patterns)

Init ==
  /\ \E b \in DOMAIN BadSeq : \E p \in DOMAIN PatSeq : \E h \in Hows(BadSeq[b]) : \E v \in Vias : \E cut \in 0..(Len(PatSeq[p]) - 1) :
       /\ (b * 13 + p + (IF v = "a" THEN 5 ELSE 0) + cut * 3 + (CASE h = "stop" -> 0 [] h = "end" -> 1 [] OTHER -> 2)) % Shards = Shard
       /\ sc = [pat |-> PatSeq[p], bad |-> BadSeq[b], how |-> h, via |-> v, cut |-> cut]
  /\ pc = 1 /\ open = FALSE /\ rows = <<>> /\ batches = <<>> /\ res = <<>>

(* ------------------------------- session ------------------------------- *)
\* rows of the running batch: item positions; 0 - i for an accepted intruder at position i
\* writing the element at pc: "in" commits it (discarding whatever was open), "out" leaves it open
Outcomes == IF sc.pat[pc] # 9 THEN {"in"} ELSE IF sc.bad.must /\ sc.how = "stop" THEN {"out"} ELSE {"in", "out"}
RowsWith(r) == IF r = "out" THEN rows ELSE Append(rows, IF sc.pat[pc] = 9 THEN 0 - pc ELSE pc)
Write == /\ pc <= Len(sc.pat) /\ sc.cut # pc
         /\ \E r \in Outcomes : rows' = RowsWith(r) /\ open' = (r = "out" /\ sc.bad.via # "append") /\ res' = Append(res, r)
         /\ pc' = pc + 1 /\ UNCHANGED <<sc, batches>>
\* writing the element at pc, then a finish, which takes the committed elements and nothing else
WriteCut == /\ pc <= Len(sc.pat) /\ sc.cut = pc
            /\ \E r \in Outcomes : batches' = Append(batches, RowsWith(r)) /\ res' = Append(res, r)
            /\ rows' = <<>> /\ open' = FALSE /\ pc' = pc + 1 /\ UNCHANGED sc
Finish == pc = Len(sc.pat) + 1 /\ batches' = Append(batches, rows) /\ rows' = <<>> /\ open' = FALSE /\ pc' = pc + 1 /\ UNCHANGED <<sc, res>>
Next == Write \/ WriteCut \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Done == pc > Len(sc.pat) + 1
\* nothing refused is visible, nothing accepted is lost, order is kept
AllRows == Flat(batches) \o rows
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Exact == AllRows = Flat([i \in DOMAIN res |-> IF res[i] = "out" THEN <<>> ELSE << IF sc.pat[i] = 9 THEN 0 - i ELSE i >>])
OthersKept == Done => \A i \in DOMAIN sc.pat : sc.pat[i] # 9 => \E j \in DOMAIN AllRows : AllRows[j] = i
RefusedOut == \A j \in DOMAIN AllRows : AllRows[j] < 0 => ~(sc.bad.must /\ sc.how = "stop")
\* an element left open never reaches a finished batch
NothingOpen == Done => ~open

(* -------------------------------- output ------------------------------- *)
Items == [i \in DOMAIN sc.pat |-> IF sc.pat[i] = 9 THEN <<>> ELSE Item(sc.pat[i])]
GoodRows(b) == SelectSeq(b, LAMBDA x : x > 0)
\* the elements of a batch without intruders, run through the writers' event machines
GoodItems(b) == [j \in DOMAIN GoodRows(b) |-> Items[GoodRows(b)[j]]]
StartOf(i) == ItemStart(Items, i)
EvAll(b) == Flat([j \in DOMAIN GoodRows(b) |-> ItemEv(Items[GoodRows(b)[j]], StartOf(GoodRows(b)[j]), 0)])
RECURSIVE Run(_, _, _)
Run(w, evs, i) == IF i > Len(evs) THEN w
  ELSE Run(CASE Target = 0 -> WB!WkbStep(w, evs[i]) [] Native -> NW!NatStep(w, evs[i]) [] OTHER -> WT!WktStep(w, evs[i]), evs, i + 1)
Array(b) == CASE Target = 0 -> WB!WkbArray(Run(WB!WkbInit, EvAll(b), 1))
              [] Native -> NW!NatArray(Run(NW!NatInit(Target), EvAll(b), 1))
              [] OTHER -> WT!WktArray(Run(WT!WktInit(Target = 11), EvAll(b), 1))
Output == [pat |-> sc.pat, bad |-> sc.bad, how |-> sc.how, via |-> sc.via, cut |-> sc.cut, res |-> res,
           evs |-> [i \in DOMAIN sc.pat |-> IF sc.pat[i] = 9 THEN <<>> ELSE ItemEv(Items[i], StartOf(i), 0)],
           batches |-> [b \in DOMAIN batches |-> [rows |-> batches[b], arr |-> Array(batches[b])]]]
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson(Output)>>)
=============================================================================

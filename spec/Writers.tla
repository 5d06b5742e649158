------------------------------ MODULE Writers ------------------------------
(***************************************************************************)
(* All array writers driven in lockstep by one event stream.               *)
(*                                                                         *)
(* A behaviour picks a scenario (items, chunking, places where every writer*)
(* is finished), then delivers its events one by one.  TLC checks that the *)
(* event machines implement the declarative encodings (Correct) and that   *)
(* the arrays are structurally valid in every state (Structure), and emits *)
(* every behaviour with everything the machines predict, to be replayed    *)
(* into the real writers.                                                  *)
(***************************************************************************)
EXTENDS Trees, Json

CONSTANTS Suite, Shard, Shards, Emit

WB == INSTANCE WkbW
WT == INSTANCE WktW
NW == INSTANCE NatW

VARIABLES sc, evs, pc, proto, wkb, wktn, wktf, nat, napp, done
vars == <<sc, evs, pc, proto, wkb, wktn, wktf, nat, napp, done>>

(* ------------------------------ scenarios ------------------------------ *)
Sc(items, ch, cuts) == [items |-> items, ch |-> ch, cuts |-> cuts]

\* families of items that share a native kind
Fam(kind, d) ==
  CASE kind = 1 -> {<<>>, << Pt(d, 1) >>, << Pt(d, 0) >>, << MPs(d, <<1>>) >>, << Empty(GC, d) >>}
    [] kind = 2 -> {<<>>, << Ls(d, 2) >>, << Ls(d, 0) >>, << MLs(d, <<1>>) >>, << Empty(PT, d) >>}
    [] kind = 3 -> {<<>>, << Pg(d, <<2, 1>>) >>, << Pg(d, <<>>) >>, << MGs(d, << <<1, 0, 1>> >>) >>, << Empty(GC, d) >>}
    [] kind = 4 -> {<<>>, << MPs(d, <<1, 1>>) >>, << Pt(d, 1) >>, << Pt(d, 0) >>, << MPs(d, <<0, 1>>) >>, << Empty(GC, d) >>}
    [] kind = 5 -> {<<>>, << MLs(d, <<2, 1>>) >>, << Ls(d, 1) >>, << Ls(d, 0) >>, << MLs(d, <<1, 0, 1>>) >>, << Empty(GC, d) >>}
    [] OTHER    -> {<<>>, << MGs(d, << <<1>>, <<2, 1>> >>) >>, << Pg(d, <<1, 1>>) >>, << MGs(d, << <<>>, <<1>> >>) >>,
                    << Pg(d, <<>>) >>, << Empty(GC, d) >>}
FamItems(kind) == Fam(kind, XY) \cup (IF kind \in {1, 4} THEN {<< Pt(XYM, 1) >>} ELSE {})
OneOf(kind, d) == CASE kind = 1 -> Pt(d, 1) [] kind = 2 -> Ls(d, 2) [] kind = 3 -> Pg(d, <<1, 2>>)
                    [] kind = 4 -> MPs(d, <<1, 1>>) [] kind = 5 -> MLs(d, <<1, 1>>)
                    [] OTHER -> MGs(d, << <<1>>, <<1, 1>> >>)
BatchItems0(k) == {<<>>, << OneOf(k, XY) >>, << Empty(GC, XY) >>}
NullSets(n) == {{}, {1}, {n}, {8}, {9}, {1, 2, 3}, {7, 8, 9, 10}, {16, 17}, 1..n, 2..n, 1..(n - 1), {3, 11, 19}}

Scenarios ==
  CASE Suite = "single" ->
        {Sc(<< << g >> >>, ch, {}) : g \in UNION {SimpleTrees(d) : d \in {XY, XYM}}, ch \in {0, 1, 2}}
        \cup {Sc(<< << g >> >>, 1, {}) : g \in UNION {SimpleTrees(d) : d \in {XYZ, XYZM}}}
    [] Suite = "coll" ->
        {Sc(<< << g >> >>, ch, {}) : g \in UNION {Coll1(d) : d \in {XY, XYZM}}, ch \in {0, 2}}
        \cup {Sc(<< << g >> >>, 0, {}) : g \in UNION {Coll2(d) : d \in {XY, XYZ}} \cup Mixed \cup Towers}
    [] Suite = "big" ->
        {Sc(<< << g >> >>, ch, {}) : g \in BigTrees, ch \in {0, 64, 100}}
    [] Suite = "seq" ->
        UNION {{Sc(its, 0, cuts) : its \in SeqsFrom(FamItems(k), 2, 3), cuts \in {{}, {1}, {0, 2}}} : k \in 1..6}
    [] Suite = "nulls" ->
        {Sc([i \in 1..n |-> IF i \in N THEN <<>> ELSE << OneOf(k, d) >>], 0, cuts) :
           n \in {9, 17, 20}, N \in NullSets(9) \cup NullSets(17) \cup NullSets(20), k \in 1..6, d \in {XY}, cuts \in {{}, {8}, {3, 12}}}
    [] Suite = "dims" ->
        {Sc(<< << OneOf(k, d) >>, <<>>, << OneOf(k, e) >>, << Empty(GC, d) >>, << OneOf(k, d) >> >>, ch, {}) :
           k \in 1..6, d \in Dims, e \in Dims, ch \in {0, 1}}
    [] Suite = "batch" ->     \* every placement of finish calls, also in empty places
        UNION {{Sc(its, ch, cuts) : its \in SeqsUpTo(BatchItems0(k), 3), ch \in {0}, cuts \in SUBSET (0..3)} : k \in 1..6}
    [] Suite = "batchbig" ->  \* growth, shrinking and bitmap creation across batches
        {Sc([i \in 1..n |-> IF (i * m) % p = 0 THEN <<>> ELSE << OneOf(k, d) >>], ch, cuts) :
           n \in {18}, m \in {1, 5, 7}, p \in {1, 2, 4, 8, 19}, k \in 1..6, d \in {XYZ}, ch \in {2},
           cuts \in {{1}, {8}, {9}, {1, 2, 3}, {16, 17}, {0, 9, 18}, {4, 8, 12, 16}}}
        \cup {Sc(<< << Ls(d, a) >>, << Ls(d, b) >>, << Ls(d, c) >> >>, 0, {1, 2}) : a \in {1, 130}, b \in {1, 65}, c \in {1, 200}, d \in {XY, XYZM}}
    [] Suite = "dims3" ->
        {Sc(<< << OneOf(k, d) >>, << OneOf(k, e) >>, << OneOf(k, f) >> >>, 0, {}) : k \in 1..6, d \in Dims, e \in Dims, f \in Dims}
        \cup {Sc(<< << Ls(d, n) >>, << Ls(e, 3) >> >>, ch, {}) : d \in Dims, e \in Dims, n \in {64, 65, 129}, ch \in {0, 1, 64}}
    [] OTHER ->
        {Sc(<< << Pt(XY, 1) >>, <<>> >>, 0, {})}

\* finish markers: cut after item i (0: before anything, i.e. an empty batch)
EventsOf(s) ==
  (IF 0 \in s.cuts THEN << <<"fin">> >> ELSE <<>>)
  \o Flat([i \in DOMAIN s.items |->
        ItemEv(s.items[i], ItemStart(s.items, i), s.ch)
        \o (IF i \in s.cuts THEN << <<"fin">> >> ELSE <<>>)])
  \o << <<"fin">> >>

NatKinds(s) == {k \in 1..6 : \A i \in DOMAIN s.items : s.items[i] = <<>> \/ NW!Representable(s.items[i][1], k)}

(* cheap deterministic sharding so that several TLC processes can split a suite *)
ItemHash(it) == IF it = <<>> THEN 7 ELSE NCoords(it[1]) * 5 + it[1].t * 3 + it[1].d + Len(it[1].k) + Len(it[1].r)
Hash(s) == s.ch + Cardinality(s.cuts) + Sum([i \in DOMAIN s.items |-> i * ItemHash(s.items[i])])

Init ==
  /\ sc \in {s \in Scenarios : Shards = 1 \/ Hash(s) % Shards = Shard}
  /\ evs = EventsOf(sc)
  /\ pc = 1 /\ proto = ProtoInit
  /\ wkb = WB!WkbInit /\ wktn = WT!WktInit(FALSE) /\ wktf = WT!WktInit(TRUE)
  /\ nat  = [k \in NatKinds(sc) |-> NW!NatInit(k)]
  /\ napp = [k \in NatKinds(sc) |-> NW!NatInit(k)]
  /\ done = <<>>

\* items completed so far, items of the running batch
NItems == Len(SelectSeq(SubSeq(evs, 1, pc - 1), LAMBDA e : e[1] = "fe"))
BatchStart == Sum([i \in DOMAIN done |-> done[i].wkb.len])

Snapshot == [wkb |-> WB!WkbArray(wkb), wktn |-> WT!WktArray(wktn), wktf |-> WT!WktArray(wktf),
             nat  |-> [k \in DOMAIN nat |-> NW!NatArray(nat[k])],
             napp |-> [k \in DOMAIN napp |-> NW!NatArray(napp[k])]]

Deliver ==
  LET e == evs[pc] IN
  /\ e[1] # "fin"
  /\ ProtoEnabled(proto, ProtoEv(e))
  /\ proto' = ProtoStep(proto, ProtoEv(e))
  /\ wkb' = WB!WkbStep(wkb, e)
  /\ wktn' = WT!WktStep(wktn, e) /\ wktf' = WT!WktStep(wktf, e)
  /\ nat' = [k \in DOMAIN nat |-> NW!NatStep(nat[k], e)]
  /\ napp' = IF e[1] = "fe"
             THEN [k \in DOMAIN napp |-> NW!NatAppend(napp[k], sc.items[NItems + 1], ItemStart(sc.items, NItems + 1))]
             ELSE napp
  /\ done' = done
Finish ==
  /\ evs[pc][1] = "fin"
  /\ done' = Append(done, Snapshot)
  /\ wkb' = WB!WkbInit /\ wktn' = WT!WktInit(FALSE) /\ wktf' = WT!WktInit(TRUE)
  /\ nat'  = [k \in DOMAIN nat |-> NW!NatInit(k)]
  /\ napp' = [k \in DOMAIN napp |-> NW!NatInit(k)]
  /\ UNCHANGED proto
Next == /\ pc <= Len(evs) /\ (Deliver \/ Finish) /\ pc' = pc + 1 /\ UNCHANGED <<sc, evs>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
BatchItems(b) ==   \* items of finished batch b
  LET s == Sum([i \in 1..(b - 1) |-> done[i].wkb.len]) IN SubSeq(sc.items, s + 1, s + done[b].wkb.len)
BatchFirst(b) == Sum([i \in 1..(b - 1) |-> done[i].wkb.len]) + 1

WkbCorrect == \A b \in DOMAIN done : LET its == BatchItems(b) IN
  /\ done[b].wkb.valid = NW!ValidOf(its) /\ done[b].wkb.nulls = NW!NullsOf(its)
  /\ \A i \in DOMAIN its :
       done[b].wkb.items[i] = IF its[i] = <<>> THEN <<>>
                              ELSE MergeRuns(WkbOf(its[i][1], ItemStart(sc.items, BatchFirst(b) + i - 1)))
WktCorrect == \A b \in DOMAIN done : LET its == BatchItems(b) IN
  \A i \in DOMAIN its : LET s == ItemStart(sc.items, BatchFirst(b) + i - 1) IN
    /\ done[b].wktn.items[i] = IF its[i] = <<>> THEN <<>> ELSE WT!Canon(WktOf(its[i][1], s, FALSE))
    /\ done[b].wktf.items[i] = IF its[i] = <<>> THEN <<>> ELSE WT!Canon(WktOf(its[i][1], s, TRUE))
NatCorrect == \A b \in DOMAIN done : LET its == BatchItems(b) s0 == ItemStart(sc.items, BatchFirst(b)) IN
  \A k \in DOMAIN nat :
    /\ ~nat[k].err
    /\ done[b].nat[k]  = NW!NatOf(its, s0, k, TRUE)
    /\ done[b].napp[k] = NW!NatOf(its, s0, k, FALSE)
Monotone(o) == o[1] = 0 /\ \A i \in 1..(Len(o) - 1) : o[i] <= o[i + 1]
Structure == \A k \in DOMAIN nat : \A l \in DOMAIN nat[k].offs : Monotone(nat[k].offs[l])
Balanced == pc > Len(evs) => proto.stk = <<>> /\ proto.phase \in {"done", "idle"}

Output == [items |-> sc.items, ch |-> sc.ch, evs |-> evs, kinds |-> SetToSeq(DOMAIN nat),
           batches |-> [b \in DOMAIN done |->
              [wkb |-> done[b].wkb, wktn |-> done[b].wktn, wktf |-> done[b].wktf,
               nat  |-> [i \in 1..6 |-> IF i \in DOMAIN nat THEN done[b].nat[i] ELSE <<>>],
               napp |-> [i \in 1..6 |-> IF i \in DOMAIN nat THEN done[b].napp[i] ELSE <<>>]]]]
Emitted == (Emit /\ pc > Len(evs)) => PrintT(<<"CASE", ToJson(Output)>>)
=============================================================================

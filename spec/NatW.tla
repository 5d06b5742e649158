-------------------------------- MODULE NatW --------------------------------
(***************************************************************************)
(* The native (GeoArrow) array writers.                                    *)
(*                                                                         *)
(* kind 1 POINT, 2 LINESTRING, 3 POLYGON, 4 MULTIPOINT, 5 MULTILINESTRING, *)
(* 6 MULTIPOLYGON.  An array is [offs, coords, valid, nulls]: offs is one  *)
(* offset sequence per nesting level (0, 1, 2, 1, 2, 3 levels), coords a   *)
(* sequence of runs <<start, n, srcdims>> (start = -1: a NaN coordinate).  *)
(*                                                                         *)
(* Part 1 is the declarative layout; part 2 the event-driven state machines*)
(* (four families, as in the library); part 3 the whole-geometry append.   *)
(***************************************************************************)
EXTENDS Geo

Kinds == 1..6
Levels(kind) == <<0, 1, 2, 1, 2, 3>>[kind]

(* ---------------------------- part 1: layout --------------------------- *)
NonZero(s) == SelectSeq(s, LAMBDA x : x > 0)
SeqSizes(g) ==  \* the coordinate sequences of a geometry, in order
  CASE g.t \in {PT, LS} -> << g.n >>
    [] g.t = PG -> g.r
    [] g.t \in {MP, ML} -> [i \in DOMAIN g.k |-> g.k[i].n]
    [] OTHER -> Flat([i \in DOMAIN g.k |-> g.k[i].r])

\* which geometries an array of this kind can hold (simple <-> one-part multi; any EMPTY)
Representable(g, kind) ==
  \/ PureEmpty(g)
  \/ CASE kind = 1 -> g.t = PT \/ (g.t = MP /\ NCoords(g) <= 1)
       [] kind = 2 -> g.t = LS \/ (g.t = ML /\ Len(g.k) <= 1)
       [] kind = 3 -> g.t = PG \/ (g.t = MG /\ Len(g.k) <= 1)
       [] kind = 4 -> g.t \in {PT, MP}
       [] kind = 5 -> g.t \in {LS, ML}
       [] kind = 6 -> g.t \in {PG, MG}

\* part structure stored for an item: nested sizes.  Nulls and geometries
\* without coordinates store no parts; event-driven writing (strip) also drops empty parts.
Parts2(it, strip) == IF it = <<>> \/ ItemCoords(it) = 0 THEN <<>>
                     ELSE IF strip THEN NonZero(SeqSizes(it[1])) ELSE SeqSizes(it[1])
Parts3(it, strip) ==
  IF it = <<>> \/ ItemCoords(it) = 0 THEN <<>>
  ELSE LET g == it[1]
           ps == IF g.t = PG THEN << g.r >> ELSE [i \in DOMAIN g.k |-> g.k[i].r]
       IN IF strip THEN SelectSeq([i \in DOMAIN ps |-> NonZero(ps[i])], LAMBDA x : x # <<>>)
          ELSE ps

Cumul(ns) == [i \in 1..(Len(ns) + 1) |-> SumTo(ns, i - 1)]
OffsOf(items, kind, strip) ==
  CASE kind = 1 -> <<>>
    [] kind \in {2, 4} -> << Cumul([i \in DOMAIN items |-> ItemCoords(items[i])]) >>
    [] kind \in {3, 5} ->
         LET ps == [i \in DOMAIN items |-> Parts2(items[i], strip)]
         IN << Cumul([i \in DOMAIN ps |-> Len(ps[i])]), Cumul(Flat(ps)) >>
    [] OTHER ->
         LET ps == [i \in DOMAIN items |-> Parts3(items[i], strip)]
             polys == Flat(ps)
         IN << Cumul([i \in DOMAIN ps |-> Len(ps[i])]),
               Cumul([i \in DOMAIN polys |-> Len(polys[i])]), Cumul(Flat(polys)) >>

\* coordinate runs of a geometry with their source dimensions
RECURSIVE Runs(_, _)
Runs(g, s) ==
  (IF g.n > 0 THEN << <<s, g.n, g.d>> >> ELSE <<>>)
  \o Flat([i \in DOMAIN g.r |-> IF g.r[i] = 0 THEN <<>> ELSE << <<RingStart(g, s, i), g.r[i], g.d>> >>])
  \o Flat([i \in DOMAIN g.k |-> Runs(g.k[i], KidStart(g, s, i))])
MergeRun(runs) ==
  FoldLeft(LAMBDA a, t :
     IF a # <<>> /\ t[1] >= 0 /\ Top(a)[1] >= 0 /\ Top(a)[3] = t[3] /\ Top(a)[1] + Top(a)[2] = t[1]
     THEN [a EXCEPT ![Len(a)] = <<@[1], @[2] + t[2], @[3]>>]
     ELSE IF t[2] = 0 THEN a ELSE Append(a, t), <<>>, runs)
NaNRun == <<-1, 1, 0>>
CoordsOf(items, s0, kind) ==
  MergeRun(Flat([i \in DOMAIN items |->
     IF ItemCoords(items[i]) = 0 THEN (IF kind = 1 THEN << NaNRun >> ELSE <<>>)
     ELSE Runs(items[i][1], s0 + ItemStart(items, i))]))
ValidOf(items) == [i \in DOMAIN items |-> IF items[i] = <<>> THEN 0 ELSE 1]
NullsOf(items) == Len(SelectSeq(items, LAMBDA x : x = <<>>))
NatOf(items, s0, kind, strip) ==
  [len |-> Len(items), offs |-> OffsOf(items, kind, strip), coords |-> CoordsOf(items, s0, kind),
   valid |-> ValidOf(items), nulls |-> NullsOf(items)]

(* ------------------ part 2: event-driven state machines ---------------- *)
NatInit(kind) ==
  [kind |-> kind, offs |-> [i \in 1..Levels(kind) |-> <<0>>], coords |-> <<>>, nc |-> 0,
   valid |-> <<>>, nulls |-> 0, level |-> 0, sz |-> <<0, 0, 0>>, nest |-> 0,
   isnull |-> FALSE, err |-> FALSE]

PutCoords(w, e) == [w EXCEPT !.coords = Append(@, <<e[3], e[4], e[2]>>), !.nc = @ + e[4]]
CloseSeq(w, lvl) == [w EXCEPT !.offs[lvl] = Append(@, w.nc)]                     \* innermost level
CloseIn(w, lvl)  == [w EXCEPT !.offs[lvl] = Append(@, Len(w.offs[lvl + 1]) - 1)] \* outer level
Validity(w) == [w EXCEPT !.valid = Append(@, IF w.isnull THEN 0 ELSE 1),
                         !.nulls = @ + (IF w.isnull THEN 1 ELSE 0)]
Fail(w) == [w EXCEPT !.err = TRUE]
Start(w) == [w EXCEPT !.level = 0, !.sz = <<0, 0, 0>>, !.nest = 0, !.isnull = FALSE]

PointStep(w, e) ==
  CASE e[1] = "fs"  -> Start(w)
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "c"   -> [PutCoords(w, e) EXCEPT !.sz[1] = @ + e[4]]
    [] e[1] = "fe"  -> IF w.sz[1] > 1 THEN Fail(w)
                       ELSE IF w.sz[1] = 1 THEN Validity(w)
                       ELSE Validity([w EXCEPT !.coords = Append(@, NaNRun), !.nc = @ + 1])
    [] OTHER -> w

\* linestrings and multipoints: one list level; the sequence closes when the
\* outermost sequence-like geometry closes
SeqStep(w, e) ==
  CASE e[1] = "fs"  -> Start(w)
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "gs"  -> CASE e[2] = LS -> [w EXCEPT !.level = @ + 1]
                         [] e[2] = MP -> [w EXCEPT !.level = @ + 1, !.nest = 1]
                         [] e[2] = PT /\ w.nest > 0 -> [w EXCEPT !.nest = @ + 1]
                         [] OTHER -> w
    [] e[1] = "rs"  -> [w EXCEPT !.level = @ + 1]
    [] e[1] = "c"   -> [PutCoords(w, e) EXCEPT !.sz[2] = @ + e[4]]
    [] e[1] = "re"  -> CloseSeq([w EXCEPT !.level = @ - 1, !.sz[1] = @ + 1], 1)
    [] e[1] = "ge"  -> IF w.nest = 2 THEN [w EXCEPT !.nest = 1]
                       ELSE IF w.level = 1
                            THEN CloseSeq([w EXCEPT !.level = 0, !.sz[1] = @ + 1], 1) ELSE w
    [] e[1] = "fe"  -> IF w.sz[1] > 1 THEN Fail(w)
                       ELSE IF w.sz[1] = 1 THEN Validity(w) ELSE Validity(CloseSeq(w, 1))

\* polygons and multilinestrings: two list levels; empty sequences are dropped
FlushSeq(w, lvl) == IF w.sz[lvl] > 0
                    THEN [CloseSeq(w, lvl) EXCEPT !.sz[lvl - 1] = @ + 1, !.sz[lvl] = 0] ELSE w
Seq2Step(w, e) ==
  CASE e[1] = "fs"  -> Start(w)
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "gs"  -> IF e[2] \in {LS, MP} THEN [w EXCEPT !.level = @ + 1] ELSE w
    [] e[1] = "rs"  -> [w EXCEPT !.level = @ + 1]
    [] e[1] = "c"   -> [PutCoords(w, e) EXCEPT !.sz[2] = @ + e[4]]
    [] e[1] = "re"  -> FlushSeq([w EXCEPT !.level = @ - 1], 2)
    [] e[1] = "ge"  -> IF w.level = 1 THEN FlushSeq([w EXCEPT !.level = 0], 2) ELSE w
    [] e[1] = "fe"  -> Validity(CloseIn(FlushSeq(w, 2), 1))

FlushPoly(w) == IF w.sz[2] > 0 THEN [CloseIn(w, 2) EXCEPT !.sz[1] = @ + 1, !.sz[2] = 0] ELSE w
Seq3Step(w, e) ==
  CASE e[1] = "fs"  -> Start(w)
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "gs"  -> IF e[2] \in {ML, PG, LS, MP} THEN [w EXCEPT !.level = @ + 1] ELSE w
    [] e[1] = "rs"  -> [w EXCEPT !.level = @ + 1]
    [] e[1] = "c"   -> [PutCoords(w, e) EXCEPT !.sz[3] = @ + e[4]]
    [] e[1] = "re"  -> FlushSeq([w EXCEPT !.level = @ - 1], 3)
    [] e[1] = "ge"  -> IF w.level = 2 THEN FlushSeq([w EXCEPT !.level = 1], 3)
                       ELSE IF w.level = 1 THEN FlushPoly([w EXCEPT !.level = 0]) ELSE w
    [] e[1] = "fe"  -> Validity(CloseIn(FlushPoly(FlushSeq(w, 3)), 1))

NatStep(w, e) ==
  CASE w.kind = 1 -> PointStep(w, e)
    [] w.kind \in {2, 4} -> SeqStep(w, e)
    [] w.kind \in {3, 5} -> Seq2Step(w, e)
    [] OTHER -> Seq3Step(w, e)

(* -------------------- part 3: whole-geometry append -------------------- *)
\* accepted iff representable, decided before anything is changed
AppendOK(g, kind) ==
  \/ NCoords(g) = 0
  \/ CASE kind = 1 -> NCoords(g) = 1
       [] kind = 2 -> g.t = LS \/ (g.t = ML /\ Len(g.k) <= 1)
       [] kind = 3 -> g.t = PG \/ (g.t = MG /\ Len(g.k) <= 1)
       [] kind = 4 -> g.t \in {PT, MP}
       [] kind = 5 -> g.t \in {LS, ML}
       [] kind = 6 -> g.t \in {PG, MG}
PushSizes(w, lvl, ns) ==
  [w EXCEPT !.offs[lvl] = @ \o [i \in DOMAIN ns |-> Top(w.offs[lvl]) + SumTo(ns, i)]]
NatAppend(w, it, s) ==
  IF it # <<>> /\ ~AppendOK(it[1], w.kind) THEN w
  ELSE
    LET w1 == CASE w.kind = 1 -> w
                [] w.kind \in {2, 4} -> PushSizes(w, 1, << ItemCoords(it) >>)
                [] w.kind \in {3, 5} ->
                     LET ps == Parts2(it, FALSE) IN PushSizes(PushSizes(w, 1, << Len(ps) >>), 2, ps)
                [] OTHER ->
                     LET ps == Parts3(it, FALSE) IN
                     PushSizes(PushSizes(PushSizes(w, 1, << Len(ps) >>), 2, [i \in DOMAIN ps |-> Len(ps[i])]),
                               3, Flat(ps))
        w2 == IF ItemCoords(it) > 0
              THEN [w1 EXCEPT !.coords = @ \o Runs(it[1], s), !.nc = @ + ItemCoords(it)]
              ELSE IF w.kind = 1 THEN [w1 EXCEPT !.coords = Append(@, NaNRun), !.nc = @ + 1] ELSE w1
    IN Validity([w2 EXCEPT !.isnull = (it = <<>>)])

NatArray(w) == [len |-> Len(w.valid), offs |-> w.offs, coords |-> MergeRun(w.coords),
                valid |-> w.valid, nulls |-> w.nulls]
=============================================================================

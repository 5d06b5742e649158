-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Abstract geometry values and the event language that every reader and   *)
(* writer of the library speaks.                                           *)
(*                                                                         *)
(* A geometry is a tree  [t, d, n, r, k]:  t type code 1..7, d dimension   *)
(* code 1..4 (XY XYZ XYM XYZM), n coordinate count (points, linestrings),  *)
(* r ring sizes (polygons), k children (multi types, collections).         *)
(* Coordinates carry no payload: they are numbered 0,1,2,... in pre-order, *)
(* coordinate i has the ordinate 10*i+a on axis a (1=X 2=Y 3=Z 4=M), so a  *)
(* lost, duplicated, swapped or re-ordered ordinate is always visible.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

PT == 1  LS == 2  PG == 3  MP == 4  ML == 5  MG == 6  GC == 7
XY == 1  XYZ == 2  XYM == 3  XYZM == 4
Dims == 1..4

NVals(d) == CASE d = 1 -> 2 [] d = 4 -> 4 [] OTHER -> 3
Axes(d)  == CASE d = 1 -> <<1, 2>> [] d = 2 -> <<1, 2, 3>>
              [] d = 3 -> <<1, 2, 4>> [] OTHER -> <<1, 2, 3, 4>>

Geom(t, d, n, r, k) == [t |-> t, d |-> d, n |-> n, r |-> r, k |-> k]
Pt(d, n)  == Geom(PT, d, n, <<>>, <<>>)
Ls(d, n)  == Geom(LS, d, n, <<>>, <<>>)
Pg(d, r)  == Geom(PG, d, 0, r, <<>>)
Coll(t, d, k) == Geom(t, d, 0, <<>>, k)
MPs(d, ns) == Coll(MP, d, [i \in DOMAIN ns |-> Pt(d, ns[i])])
MLs(d, ns) == Coll(ML, d, [i \in DOMAIN ns |-> Ls(d, ns[i])])
MGs(d, rs) == Coll(MG, d, [i \in DOMAIN rs |-> Pg(d, rs[i])])
Empty(t, d) == Geom(t, d, 0, <<>>, <<>>)
PureEmpty(g) == g.n = 0 /\ g.r = <<>> /\ g.k = <<>>

Sum(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
Flat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
SumTo(s, i) == Sum(SubSeq(s, 1, i))        \* sum of the first i elements

RECURSIVE NCoords(_)
NCoords(g) == g.n + Sum(g.r) + Sum([i \in DOMAIN g.k |-> NCoords(g.k[i])])

RECURSIVE Depth(_)
Depth(g) == 1 + (IF g.r # <<>> THEN 1 ELSE 0)
              + (IF g.k = <<>> THEN 0
                 ELSE LET ds == {Depth(g.k[i]) : i \in DOMAIN g.k}
                      IN CHOOSE m \in ds : \A x \in ds : x <= m)

\* index of the first coordinate of child i when the parent starts at s
KidStart(g, s, i)  == s + SumTo([j \in DOMAIN g.k |-> NCoords(g.k[j])], i - 1)
RingStart(g, s, i) == s + SumTo(g.r, i - 1)

(***************************************************************************)
(* Events.  <<"fs">> <<"nul">> <<"gs",t,d>> <<"rs">> <<"c",d,start,n>>     *)
(* <<"re">> <<"ge">> <<"fe">>.  A coordinate sequence may be cut into any  *)
(* number of "c" events, including empty ones (chunking policy ch).        *)
(***************************************************************************)
C(d, s, n) == <<"c", d, s, n>>
MinI(a, b) == IF a < b THEN a ELSE b

\* ch = 0: one call (none if empty); ch = k > 0: calls of at most k coordinates,
\* preceded by an empty call when k is even.
Chunks(d, s, n, ch) ==
  IF ch = 0 THEN (IF n = 0 THEN <<>> ELSE << C(d, s, n) >>)
  ELSE (IF ch % 2 = 0 THEN << C(d, s, 0) >> ELSE <<>>)
       \o [i \in 1..((n + ch - 1) \div ch) |-> C(d, s + (i - 1) * ch, MinI(ch, n - (i - 1) * ch))]

RECURSIVE Ev(_, _, _)
Ev(g, s, ch) ==
  << <<"gs", g.t, g.d>> >>
  \o (IF g.t \in {PT, LS} THEN Chunks(g.d, s, g.n, ch) ELSE <<>>)
  \o Flat([i \in DOMAIN g.r |->
        << <<"rs">> >> \o Chunks(g.d, RingStart(g, s, i), g.r[i], ch) \o << <<"re">> >>])
  \o Flat([i \in DOMAIN g.k |-> Ev(g.k[i], KidStart(g, s, i), ch)])
  \o << <<"ge">> >>

(***************************************************************************)
(* An item is <<>> (null) or <<g>>.  Items are numbered so that coordinates*)
(* are unique across a whole scenario.                                     *)
(***************************************************************************)
ItemCoords(it) == IF it = <<>> THEN 0 ELSE NCoords(it[1])
ItemStart(items, i) == SumTo([j \in DOMAIN items |-> ItemCoords(items[j])], i - 1)
ItemEv(it, s, ch) ==
  << <<"fs">> >> \o (IF it = <<>> THEN << <<"nul">> >> ELSE Ev(it[1], s, ch)) \o << <<"fe">> >>

(***************************************************************************)
(* The visitor protocol as a pushdown automaton (property C01).            *)
(* State: [phase, stack, nd] where phase is "idle","open","null","body",   *)
(* "done"; the stack holds <<kind, dims>> with kind = type code or 0=ring. *)
(***************************************************************************)
ProtoInit == [phase |-> "idle", stk |-> <<>>]
Top(s) == s[Len(s)]
MayContain(parent, child) ==
  \/ parent = GC
  \/ parent \in {MP, ML, MG} /\ child = parent - 3
ProtoEnabled(p, e) ==
  CASE e[1] = "fs"  -> p.phase \in {"idle", "done"} /\ p.stk = <<>>
    [] e[1] = "nul" -> p.phase = "open"
    [] e[1] = "gs"  -> /\ e[2] \in 1..7 /\ e[3] \in Dims
                       /\ \/ p.phase = "open"
                          \/ p.phase = "body" /\ p.stk # <<>> /\ MayContain(Top(p.stk)[1], e[2])
    [] e[1] = "rs"  -> p.phase = "body" /\ p.stk # <<>> /\ Top(p.stk)[1] = PG
    [] e[1] = "c"   -> /\ p.phase = "body" /\ p.stk # <<>>
                       /\ Top(p.stk)[1] \in {0, PT, LS}
                       /\ e[2] = NVals(Top(p.stk)[2])       \* e[2]: ordinates per coordinate
                       /\ Top(p.stk)[1] = PT => Top(p.stk)[3] + e[4] <= 1
    [] e[1] = "re"  -> p.phase = "body" /\ p.stk # <<>> /\ Top(p.stk)[1] = 0
    [] e[1] = "ge"  -> p.phase = "body" /\ p.stk # <<>> /\ Top(p.stk)[1] # 0
    [] e[1] = "fe"  -> p.phase \in {"null", "body"} /\ p.stk = <<>>
    [] OTHER -> FALSE
Pop(s) == SubSeq(s, 1, Len(s) - 1)
ProtoStep(p, e) ==
  CASE e[1] = "fs"  -> [phase |-> "open", stk |-> <<>>]
    [] e[1] = "nul" -> [p EXCEPT !.phase = "null"]
    [] e[1] = "gs"  -> [phase |-> "body", stk |-> Append(p.stk, <<e[2], e[3], 0>>)]
    [] e[1] = "rs"  -> [p EXCEPT !.stk = Append(@, <<0, Top(@)[2], 0>>)]
    [] e[1] = "c"   -> [p EXCEPT !.stk[Len(p.stk)][3] = @ + e[4]]
    [] e[1] = "re"  -> [p EXCEPT !.stk = Pop(@)]
    [] e[1] = "ge"  -> [p EXCEPT !.stk = Pop(@)]
    [] e[1] = "fe"  -> [phase |-> "done", stk |-> <<>>]
\* in specifications a "c" event carries the dimension code; convert for the automaton
ProtoEv(e) == IF e[1] = "c" THEN <<"c", NVals(e[2]), e[3], e[4]>> ELSE e

(***************************************************************************)
(* Declarative encodings (the meaning the writers must implement).         *)
(* WKB as a token sequence: <<"b",byte>> <<"u",uint32>> <<"c",d,start,n>>  *)
(* <<"nan",k>> (k NaN doubles).                                            *)
(***************************************************************************)
IsoType(g) == g.t + (g.d - 1) * 1000
RECURSIVE WkbOf(_, _)
WkbOf(g, s) ==
  << <<"b", 1>>, <<"u", IsoType(g)>> >>
  \o CASE g.t = PT -> (IF g.n = 0 THEN << <<"nan", NVals(g.d)>> >> ELSE << C(g.d, s, g.n) >>)
       [] g.t = LS -> << <<"u", g.n>> >> \o (IF g.n = 0 THEN <<>> ELSE << C(g.d, s, g.n) >>)
       [] g.t = PG -> << <<"u", Len(g.r)>> >>
                      \o Flat([i \in DOMAIN g.r |->
                           << <<"u", g.r[i]>> >>
                           \o (IF g.r[i] = 0 THEN <<>> ELSE << C(g.d, RingStart(g, s, i), g.r[i]) >>)])
       [] OTHER   -> << <<"u", Len(g.k)>> >>
                      \o Flat([i \in DOMAIN g.k |-> WkbOf(g.k[i], KidStart(g, s, i))])

\* bytes of a token sequence
TokBytes(tk) == CASE tk[1] = "b" -> 1 [] tk[1] = "u" -> 4 [] tk[1] = "nan" -> 8 * tk[2]
                  [] OTHER -> 8 * NVals(tk[2]) * tk[4]
Bytes(toks) == Sum([i \in DOMAIN toks |-> TokBytes(toks[i])])
\* adjacent coordinate runs are one run
MergeRuns(toks) ==
  FoldLeft(LAMBDA a, t :
     IF t[1] = "c" /\ t[4] = 0 THEN a
     ELSE IF t[1] = "c" /\ a # <<>> /\ Top(a)[1] = "c" /\ Top(a)[2] = t[2]
             /\ Top(a)[3] + Top(a)[4] = t[3]
          THEN [a EXCEPT ![Len(a)] = <<"c", t[2], @[3], @[4] + t[4]>>]
          ELSE Append(a, t), <<>>, toks)

(***************************************************************************)
(* WKT as a token sequence: strings and <<"c",d,start,n>> (coordinates     *)
(* separated by ", ", ordinates by " ").                                   *)
(***************************************************************************)
TypeWord(t) == <<"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING",
                 "MULTIPOLYGON", "GEOMETRYCOLLECTION">>[t]
DimWord(d) == <<"", " Z", " M", " ZM">>[d]
S(str) == <<"s", str>>
JoinComma(parts) ==
  Flat([i \in DOMAIN parts |-> IF i = 1 THEN parts[i] ELSE << S(", ") >> \o parts[i]])
SeqBody(d, s, n) ==
  IF n = 0 THEN << S("EMPTY") >> ELSE << S("("), C(d, s, n), S(")") >>
RECURSIVE WktBody(_, _, _)
RECURSIVE WktOf(_, _, _)
WktOf(g, s, flat) == << S(TypeWord(g.t) \o DimWord(g.d) \o " ") >> \o WktBody(g, s, flat)
WktBody(g, s, flat) ==
  CASE g.t \in {PT, LS} -> SeqBody(g.d, s, g.n)
    [] g.t = PG -> IF g.r = <<>> THEN << S("EMPTY") >>
                   ELSE << S("(") >> \o JoinComma([i \in DOMAIN g.r |-> SeqBody(g.d, RingStart(g, s, i), g.r[i])])
                        \o << S(")") >>
    [] OTHER -> IF g.k = <<>> THEN << S("EMPTY") >>
                ELSE << S("(") >>
                     \o JoinComma([i \in DOMAIN g.k |->
                          LET ks == KidStart(g, s, i) IN
                          IF g.t = GC THEN WktOf(g.k[i], ks, flat)
                          ELSE IF g.t = MP /\ flat /\ g.k[i].n > 0
                               THEN << C(g.k[i].d, ks, g.k[i].n) >>
                               ELSE WktBody(g.k[i], ks, flat)])
                     \o << S(")") >>
\* normal form for comparison: strings concatenated, runs merged
MergeText(toks) ==
  FoldLeft(LAMBDA a, t :
     IF t[1] = "s" /\ a # <<>> /\ Top(a)[1] = "s"
     THEN [a EXCEPT ![Len(a)] = S(@[2] \o t[2])]
     ELSE IF t[1] = "s" /\ t[2] = "" THEN a ELSE Append(a, t), <<>>, toks)
=============================================================================

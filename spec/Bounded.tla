------------------------------- MODULE Bounded -------------------------------
(***************************************************************************)
(* WKT output with a maximum element size.                                 *)
(*                                                                         *)
(* The writer (the event machine of WktW) is told the events of features.  *)
(* Once the text of the current feature has reached the limit it MAY ask   *)
(* its source to stop, and it MUST do so before more than Slack further    *)
(* parts (geometries, rings, coordinate sequences) are written; the source *)
(* then goes straight to the end of the feature.  The element is what fits.*)
(*                                                                         *)
(* Exact: whichever of the permitted stopping points is taken, every       *)
(* element is the prefix of the complete text, nulls stay nulls and        *)
(* features after a truncated one are not affected.                        *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Suite, Shard, Shards, Emit
WT == INSTANCE WktW
VARIABLES sc, evs, pc, w, skip, since, lo, wins, elems, lazy
vars == <<sc, evs, pc, w, skip, since, lo, wins, elems, lazy>>
Slack == 3

(* ------------------------------- texts ------------------------------- *)
CoordText(d, i) == LET ax == Axes(d) IN
  FoldLeft(LAMBDA a, j : a \o (IF j > 1 THEN " " ELSE "") \o ToString(10 * i + ax[j]), "", [j \in DOMAIN ax |-> j])
TokText(t) == IF t[1] = "s" THEN t[2]
              ELSE FoldLeft(LAMBDA a, j : a \o (IF j > 1 THEN ", " ELSE "") \o CoordText(t[2], t[3] + j - 1), "", [j \in 1..t[4] |-> j])
Text(toks) == FoldLeft(LAMBDA a, t : a \o TokText(t), "", toks)
Cut(str, L) == IF L >= 0 /\ Len(str) > L THEN SubSeq(str, 1, L) ELSE str

(* ----------------------------- scenarios ----------------------------- *)
\* g: the geometry the limit is aimed at; the pattern decides the items around it
Shapes(d) == {Pt(d, 1), Ls(d, 3), Ls(d, 0), Pg(d, <<2, 0, 1>>), Pg(d, <<>>), MPs(d, <<1, 1, 1>>), MPs(d, <<1, 0>>), MLs(d, <<2, 0, 2>>),
              MGs(d, << <<1, 1>>, <<>>, <<2>> >>), Coll(GC, d, << Pt(d, 1), Ls(d, 2), Empty(PG, d), MPs(d, <<1, 1>>) >>),
              Coll(GC, d, << Coll(GC, d, << Ls(d, 1), Empty(GC, d) >>), Pg(d, <<1>>) >>)}
Shapes2 == Shapes(XY) \cup {Pt(d, 1) : d \in {XYZ, XYZM}} \cup {MLs(XYM, <<1, 2>>), Coll(GC, XYZ, << Pt(XYZ, 1), Pt(XY, 1) >>)}
Many == {Coll(MP, XY, [i \in 1..40 |-> Pt(XY, 1)]), Coll(ML, XY, [i \in 1..30 |-> Empty(LS, XY)]), Pg(XY, [i \in 1..30 |-> i % 2]),
         Coll(GC, XY, [i \in 1..20 |-> IF i % 3 = 0 THEN Empty(GC, XY) ELSE Pt(XY, 1)]), Ls(XY, 120), Coll(MG, XYZ, [i \in 1..12 |-> Pg(XYZ, <<1>>)])}
Around(g, k) == LET o == << MPs(XY, <<1, 1>>) >> IN
  CASE k = 1 -> << << g >> >>  [] k = 2 -> << <<>>, << g >>, o >>  [] k = 3 -> << o, << g >>, <<>>, << g >> >>
    [] OTHER -> << << g >>, << g >>, <<>>, <<>>, << Ls(XY, 2) >> >>
Full(g, s) == Text(WktOf(g, s, sc.flat))
Lens(g) == {Len(Text(WktOf(g, 0, f))) : f \in BOOLEAN}
MaxOf(X) == CHOOSE m \in X : \A x \in X : x <= m
Limits(g) == IF g \in Many THEN {-1, 0, 1, 17, 18, 40, 99, 150, MaxOf(Lens(g)) - 1, MaxOf(Lens(g)), MaxOf(Lens(g)) + 1} ELSE -1..(MaxOf(Lens(g)) + 1)
Mix(g, L, ch, k) == (L + 1) * 7 + ch * 3 + k + g.t * 5 + g.d + NCoords(g)

EventsOf == Flat([i \in DOMAIN sc.items |-> ItemEv(sc.items[i], ItemStart(sc.items, i), sc.ch)])
Init ==
  /\ \E g \in (IF Suite = "many" THEN Many ELSE Shapes2) : \E L \in Limits(g) : \E ch \in {0, 1, 2} : \E k \in 1..4 : \E f \in BOOLEAN :
       /\ Shards = 1 \/ (Mix(g, L, ch, k) + (IF f THEN 2 ELSE 0)) % Shards = Shard
       /\ sc = [items |-> Around(g, k), ch |-> ch, flat |-> f, limit |-> L]
  /\ evs = EventsOf /\ pc = 1 /\ w = WT!WktInit(sc.flat)
  /\ skip = FALSE /\ since = 0 /\ lo = 0 /\ wins = <<>> /\ elems = <<>>
  /\ lazy \in 0..(Slack + 1)     \* how long this writer goes on after reaching the limit

Cur(x) == IF x.offs = <<>> THEN "" ELSE Text(SubSeq(x.out, x.offs[Len(x.offs)] + 1, Len(x.out)))
Content(e) == e[1] \in {"gs", "rs"} \/ (e[1] = "c" /\ e[4] > 0)
Reached(x) == sc.limit >= 0 /\ Len(Cur(x)) >= sc.limit
Feature(i) == IF sc.items[i] = <<>> THEN "" ELSE Full(sc.items[i][1], ItemStart(sc.items, i))

Write ==   \* the writer takes the event
  LET e == evs[pc]  x == WT!WktStep(w, e) IN
  /\ ~skip /\ e[1] # "fe"
  /\ ~(Content(e) /\ Reached(x) /\ since >= lazy)
  /\ w' = x
  /\ since' = IF e[1] = "fs" THEN 0 ELSE IF Content(e) /\ Reached(w) THEN since + 1 ELSE since
  /\ lo' = IF e[1] = "fs" THEN 0 ELSE IF lo = 0 /\ Content(e) /\ Reached(x) THEN pc ELSE lo
  /\ UNCHANGED <<skip, wins, elems, lazy>>
Stop ==    \* the writer asks for the end of the feature
  LET e == evs[pc] x == WT!WktStep(w, e) IN
  /\ ~skip /\ Content(e) /\ Reached(x) /\ since >= lazy
  /\ skip' = TRUE
  /\ w' = x                     \* any part of e may have been written: only the prefix counts
  /\ lo' = IF lo = 0 THEN pc ELSE lo
  /\ wins' = Append(wins, <<IF lo = 0 THEN pc ELSE lo, pc>>)
  /\ UNCHANGED <<since, elems, lazy>>
SkipOver == /\ skip /\ evs[pc][1] # "fe" /\ UNCHANGED <<w, skip, since, lo, wins, elems, lazy>>
FeatEnd == /\ evs[pc][1] = "fe"
           /\ elems' = Append(elems, IF w.isnull THEN <<>> ELSE << Cut(Cur(w), sc.limit) >>)
           /\ wins' = IF skip THEN wins ELSE Append(wins, <<lo, 0>>)
           /\ w' = WT!WktStep(w, evs[pc]) /\ skip' = FALSE /\ since' = 0 /\ lo' = 0 /\ UNCHANGED lazy
Next == pc <= Len(evs) /\ (Write \/ Stop \/ SkipOver \/ FeatEnd) /\ pc' = pc + 1 /\ UNCHANGED <<sc, evs>>
Spec == Init /\ [][Next]_vars

Exact == \A i \in DOMAIN elems : elems[i] = IF sc.items[i] = <<>> THEN <<>> ELSE << Cut(Feature(i), sc.limit) >>
Prompt == since <= Slack + 1
Done == pc > Len(evs)
OneEach == Done => Len(elems) = Len(sc.items)
KindOf == {k \in 1..6 : \A i \in DOMAIN sc.items : sc.items[i] = <<>> \/ (sc.items[i][1].t = k /\ sc.items[i][1].d = XY)}
Emitted == (Emit /\ Done /\ lazy = Slack + 1) =>
  PrintT(<<"CASE", ToJson([items |-> sc.items, ch |-> sc.ch, flat |-> sc.flat, limit |-> sc.limit, evs |-> evs, wins |-> wins, elems |-> elems,
     kinds |-> SetToSeq(KindOf)])>>)
=============================================================================

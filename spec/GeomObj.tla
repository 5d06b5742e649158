------------------------------ MODULE GeomObj ------------------------------
(***************************************************************************)
(* Geometry objects (C11).  Objects are built from visitor calls, copied   *)
(* deeply or shallowly from each other and from node lists in foreign      *)
(* memory ("hands"), abandoned half way and reused.  An object's content   *)
(* is the tree it holds and the set of owners its coordinates lie in; it   *)
(* becomes unknown when one of those owners is changed or freed.  What a   *)
(* visit of an object with known content delivers is Ev of its tree.       *)
(*                                                                         *)
(* Suite "hist": every history of Len operations, the tree of each step    *)
(* cycling through a list; "chain": every tree of the families and every   *)
(* memory layout through fixed programs; "nodes": literal node lists.      *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Suite, Shard, Shards, MaxOps, Turn, Emit
VARIABLES obj, prog, log
vars == <<obj, prog, log>>
Objs == {"G1", "G2", "G3"}
Hands == {"H1"}
All == Objs \cup Hands
None == [g |-> <<>>, s |-> 0, from |-> {}]

(* ------------------------------- trees --------------------------------- *)
HistTrees == << Pg(XY, <<2, 0, 1>>), Pt(XYZ, 0), Ls(XYM, 3), MPs(XYZM, <<1, 0>>),
   Coll(GC, XY, << Pg(XY, <<1, 2>>), Empty(GC, XY), MPs(XY, <<0, 1>>) >>), Empty(MG, XYZ), Pt(XY, 1),
   MLs(XYZ, <<0, 2, 0>>), Coll(GC, XYZM, << Pt(XY, 1), Ls(XYZM, 2), Empty(PT, XYM) >>), MGs(XYM, << <<>>, <<2, 0>>, <<1>> >>) >>
SmallDepth(ts) == {g \in ts : Depth(g) <= 31}
TowersD == UNION {{Tower(m, d, g) : g \in {Pt(XYZ, 1), Empty(GC, XY), Ls(XY, 0)}} : m \in {3, 29, 30}, d \in {XY}}
           \cup {Tower(m, XY, g) : m \in {28, 29}, g \in {Pg(XY, <<2>>), MPs(XY, <<1, 0>>)}}
BigD == {Ls(d, n) : d \in Dims, n \in {95, 96, 97, 127, 128, 129, 191, 192, 193, 384, 385, 577}}
        \cup {Pg(d, <<n, 3, n>>) : d \in Dims, n \in {96, 128, 192, 193}} \cup {MPs(XYZ, [i \in 1..40 |-> i % 2])}
        \cup {Coll(GC, XY, << Ls(XYZM, 97), Pg(XYM, <<129, 1>>), Ls(XY, 193) >>)}
ChainTrees == UNION {SimpleTrees(d) : d \in Dims} \cup Coll1(XYZ) \cup Coll2(XY) \cup Mixed \cup SmallDepth(TowersD) \cup BigD
\* kept small: a tree together with a layout / chunking 0..5
Hash(g) == NCoords(g) * 7 + g.t * 3 + g.d + Len(g.k) * 5 + Len(g.r) + Sum([i \in DOMAIN g.k |-> i * g.k[i].t + g.k[i].d + Len(g.k[i].k)])

(* ----------------------------- operations ------------------------------ *)
Start(n) == 1000 * n
Tree(op) == op.g
\* everything whose coordinates lie in x (other than x itself, which is being given new content)
Spoil(o, x) == [y \in All |-> IF y # x /\ x \in o[y].from THEN None ELSE o[y]]
Known(x) == obj[x].g # <<>>
Can(op) ==
  CASE op.o = "build"   -> op.x \in Objs
    [] op.o = "abandon" -> op.x \in Objs
    [] op.o = "hand"    -> op.x \in Hands
    [] op.o = "free"    -> op.x \in Hands /\ Known(op.x)
    [] op.o \in {"deep", "shallow"} -> op.y \in Objs /\ op.x # op.y /\ Known(op.x) /\ op.y \notin obj[op.x].from
    [] op.o = "visit"   -> Known(op.x)
    [] OTHER -> FALSE
After(op) ==
  CASE op.o \in {"build", "hand"} -> [Spoil(obj, op.x) EXCEPT ![op.x] = [g |-> <<op.g>>, s |-> op.s, from |-> {op.x}]]
    [] op.o = "abandon" -> [Spoil(obj, op.x) EXCEPT ![op.x] = None]
    [] op.o = "free" -> [Spoil(obj, op.x) EXCEPT ![op.x] = None]
    [] op.o = "deep" -> [Spoil(obj, op.y) EXCEPT ![op.y] = [obj[op.x] EXCEPT !.from = {op.y}]]
    [] op.o = "shallow" -> [Spoil(obj, op.y) EXCEPT ![op.y] = obj[op.x]]
    [] OTHER -> obj
Op(o, x, y, g, s, k) == [o |-> o, x |-> x, y |-> y, g |-> g, s |-> s, k |-> k]
NoTree == Pt(XY, 0)
Entry(op) ==
  CASE op.o = "visit" -> [o |-> "visit", x |-> op.x, n |-> NCoords(obj[op.x].g[1]), evs |-> ItemEv(obj[op.x].g, obj[op.x].s, 0)]
    [] op.o = "build" -> [o |-> "build", x |-> op.x, k |-> op.k % 6, evs |-> ItemEv(<<op.g>>, op.s, op.k % 5)]
    [] op.o = "abandon" -> LET e == ItemEv(<<op.g>>, op.s, op.k % 3) IN
                           [o |-> "abandon", x |-> op.x, k |-> op.k % 6, evs |-> SubSeq(e, 1, 1 + ((op.k * 5) % Len(e)))]
    [] op.o = "hand"  -> [o |-> "hand", x |-> op.x, k |-> op.k % 10, evs |-> ItemEv(<<op.g>>, op.s, 0)]
    [] OTHER -> [o |-> op.o, x |-> op.x, y |-> op.y]
Do(op) == Can(op) /\ obj' = After(op) /\ log' = Append(log, Entry(op))

(* ------------------------------ behaviours ----------------------------- *)
Program(g, k) ==
  LET s == Start(1) IN
  IF k < 10
  THEN << Op("hand", "H1", "", g, s, k), Op("visit", "H1", "", g, s, k), Op("shallow", "H1", "G2", g, s, k), Op("visit", "G2", "", g, s, k),
          Op("deep", "H1", "G1", g, s, k), Op("deep", "G2", "G3", g, s, k), Op("free", "H1", "", g, s, k), Op("visit", "G1", "", g, s, k),
          Op("shallow", "G1", "G2", g, s, k), Op("visit", "G2", "", g, s, k), Op("visit", "G3", "", g, s, k),
          Op("build", "G1", "", g, s + 5000, k + 1), Op("visit", "G1", "", g, s, k), Op("visit", "G3", "", g, s, k) >>
  ELSE << Op("build", "G1", "", g, s, k), Op("visit", "G1", "", g, s, k), Op("deep", "G1", "G2", g, s, k), Op("abandon", "G1", "", g, s + 3000, k),
          Op("visit", "G2", "", g, s, k), Op("build", "G1", "", g, s + 5000, k + 1), Op("shallow", "G1", "G3", g, s, k), Op("visit", "G3", "", g, s, k),
          Op("deep", "G2", "G1", g, s, k), Op("visit", "G1", "", g, s, k), Op("visit", "G2", "", g, s, k) >>
TreeAt(n, t) == HistTrees[1 + ((n * 3 + t + Turn) % Len(HistTrees))]

NL == Suite = "nodes"
Init == /\ obj = [x \in All |-> None] /\ log = <<>>
        /\ CASE Suite = "hist" -> prog = <<>>
             [] Suite = "chain" -> \E g \in {y \in ChainTrees : (Hash(y) + Turn) % Shards = Shard}, k \in 0..15 :
                   /\ (NCoords(g) <= 12 /\ Depth(g) < 9) \/ k \in {(Hash(g) + Turn) % 10, 6 + ((Hash(g) + Turn) % 4), 10 + ((Hash(g) + Turn) % 6)}
                   /\ Shards = 1 \/ k % 2 = Hash(g) % 2 \/ NCoords(g) > 12
                   /\ prog = Program(g, k)
Hist == /\ Suite = "hist" /\ Len(log) < MaxOps
        /\ LET n == Len(log) + 1  s == Start(n) IN
           \/ \E x \in {"G1", "G2"} : Do(Op("build", x, "", TreeAt(n, 0), s, n + Turn))
           \/ \E x \in {"G1", "G2"} : Do(Op("abandon", x, "", TreeAt(n, 1), s, n + Turn))
           \/ Do(Op("hand", "H1", "", TreeAt(n, 2), s, n + Turn))
           \/ Do(Op("free", "H1", "", NoTree, s, 0))
           \/ \E x \in {"G1", "G2", "H1"}, y \in {"G1", "G2"}, o \in {"deep", "shallow"} : Do(Op(o, x, y, NoTree, s, 0))
        /\ UNCHANGED prog
Run == /\ Suite = "chain" /\ prog # <<>> /\ Do(Head(prog)) /\ prog' = Tail(prog)
Spec == Init /\ [][Hist \/ Run]_vars

(* ----------------------------- properties ------------------------------ *)
\* programs never ask for something the machine cannot answer
Runs == Suite = "chain" /\ prog # <<>> => Can(Head(prog))
\* known content lies in live owners
Sound == \A x \in All : Known(x) => \A y \in obj[x].from : Known(y) /\ y \in obj[y].from
\* every predicted visit obeys the visitor protocol
ProtoRun(e) == FoldLeft(LAMBDA p, x : IF p.phase # "bad" /\ ProtoEnabled(p, ProtoEv(x)) THEN ProtoStep(p, ProtoEv(x)) ELSE [phase |-> "bad", stk |-> <<>>], ProtoInit, e)
Visits == log # <<>> /\ log[Len(log)].o = "visit" => ProtoRun(log[Len(log)].evs) = [phase |-> "done", stk |-> <<>>]
Finals == [x \in {y \in Objs \cup Hands : Known(y)} |-> Entry(Op("visit", x, "", NoTree, 0, 0))]
Mine == Suite = "chain" \/ (Sum([i \in DOMAIN log |-> i * (Len(log[i].o) + (IF log[i].x = "G1" THEN 1 ELSE 0))])) % Shards = Shard
Emitted == (Emit /\ Mine /\ ((Suite = "chain" /\ prog = <<>>) \/ (Suite = "hist" /\ Len(log) = MaxOps)))
           => PrintT(<<"CASE", ToJson([log |-> log \o (IF Suite = "hist" THEN SetToSeq({Finals[x] : x \in DOMAIN Finals}) ELSE <<>>)])>>)
=============================================================================

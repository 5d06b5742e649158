------------------------------ MODULE Bindings ------------------------------
(***************************************************************************)
(* The Python bindings: programs over holders, builders, views, buffers,   *)
(* memoryviews and kernels, and who keeps whose memory alive.              *)
(*                                                                         *)
(* Every Python object is an entity with a variable that may be dropped    *)
(* and with the set of entities it refers to.  A builder refers to the     *)
(* objects whose memory it was given, the array it finishes takes these    *)
(* references over, a view refers to its array, a buffer to its view, a    *)
(* memoryview to its buffer.  Memory is alive exactly as long as something *)
(* with a variable leads to it; what is read through any path is what was  *)
(* put in, whatever was dropped in between.                                *)
(*                                                                         *)
(* An array is given by [t encoding, g geometry, n rows, nr number of its  *)
(* first coordinate, z null rows]: all its contents follow from these.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Suite, Steps, Emit
VARIABLES ent, hist, nr, ended
vars == <<ent, hist, nr, ended>>

(* ------------------------------- contents ------------------------------ *)
WKB == 100001
WKT == 100003
BuilderTypes == {1, 10001, 2, 10002, 3, 11003, 1006, 6, 3990, 990, WKB}
KernelTypes == {1, 10001, 2, 10002, WKB, WKT}
Geom(t) == t % 1000
Dim(t) == IF t >= 100000 THEN 1 ELSE 1 + ((t \div 1000) % 10)
NAxes(t) == CASE Dim(t) = 1 -> 2 [] Dim(t) \in {2, 3} -> 3 [] OTHER -> 4
Axes(t) == CASE Dim(t) = 1 -> <<1, 2>> [] Dim(t) = 2 -> <<1, 2, 3>> [] Dim(t) = 3 -> <<1, 2, 4>> [] OTHER -> <<1, 2, 3, 4>>
Inter(t) == t < 100000 /\ t \div 10000 = 1
IsBox(t) == t < 100000 /\ Geom(t) = 990
Levels(g) == CASE g \in {1, 990} -> 0 [] g \in {2, 4} -> 1 [] g \in {3, 5} -> 2 [] OTHER -> 3
\* how many children element i (from 0) of level l has
Cnt(a, l, i) == (i * 2 + a.nr + l) % 3
RECURSIVE SumTo(_, _, _)
SumTo(a, l, i) == IF i = 0 THEN 0 ELSE SumTo(a, l, i - 1) + Cnt(a, l, i - 1)
RECURSIVE Elems(_, _)
Elems(a, l) == IF l = 1 THEN a.n ELSE SumTo(a, l - 1, Elems(a, l - 1))   \* elements of list level l, from 1
Off(a, l) == [i \in 1..(Elems(a, l) + 1) |-> SumTo(a, l, i - 1)]
NCoords(a) == IF Levels(a.g) = 0 THEN a.n ELSE SumTo(a, Levels(a.g), Elems(a, Levels(a.g)))
Val(a, i, x) == 10 * (a.nr + i) + x
\* row i (from 1): its coordinates, or null
Row(a, i) == IF i \in a.z THEN <<-1>> ELSE IF a.g = 1 THEN <<a.nr + i - 1>> ELSE LET o == Off(a, 1) IN [k \in 1..(o[i + 1] - o[i]) |-> a.nr + o[i] + k - 1]
Rows(a) == [i \in 1..a.n |-> Row(a, i)]
WkbLen(a, i) == IF a.g = 1 THEN 21 ELSE 9 + 16 * (Off(a, 1)[i + 1] - Off(a, 1)[i])
RECURSIVE WkbEnd(_, _)
WkbEnd(a, i) == IF i = 0 THEN 0 ELSE WkbEnd(a, i - 1) + WkbLen(a, i)
\* the buffers behind the validity bits: [f format, v values]; the bytes of WKB are named by their rows
Buf(f, v) == [f |-> f, v |-> v]
NOrd(t) == IF IsBox(t) THEN 2 * NAxes(t) ELSE NAxes(t)
Buffers(a) ==
  IF a.t = WKB THEN <<Buf("i", [i \in 1..(a.n + 1) |-> WkbEnd(a, i - 1)]), Buf("B", <<>>)>>
  ELSE [l \in 1..Levels(a.g) |-> Buf("i", Off(a, l))]
       \o IF Inter(a.t) THEN LET k == NAxes(a.t) IN <<Buf("d", [p \in 1..(k * NCoords(a)) |-> Val(a, (p - 1) \div k, Axes(a.t)[((p - 1) % k) + 1])])>>
          ELSE [j \in 1..NOrd(a.t) |-> Buf("d", [p \in 1..NCoords(a) |-> Val(a, p - 1, j)])]
NSet(a) == Len(Buffers(a)) + IF a.z = {} THEN 0 ELSE 1
None == [t |-> 0, g |-> 0, n |-> 0, nr |-> 0, z |-> {}]

(* ------------------------------- entities ------------------------------ *)
\* k kind, v has a variable, r refers to, s state, a contents, b a number
E(k, r, s, a, b) == [k |-> k, v |-> TRUE, r |-> r, s |-> s, a |-> a, b |-> b]
N == Len(ent)
RECURSIVE Reach(_, _)
Reach(es, X) == LET Y == X \cup UNION {es[i].r : i \in X} IN IF Y = X THEN X ELSE Reach(es, Y)
Alive(es) == Reach(es, {i \in DOMAIN es : es[i].v})
Tracked(es) == {i \in DOMAIN es : es[i].k \in {"src", "res"}}
Var(k) == {i \in DOMAIN ent : ent[i].k = k /\ ent[i].v}
Users(es, i) == {j \in Alive(es) : j # i /\ i \in Reach(es, {j})}

Log(op, x, a, r, want) == LET es == ent' IN
  hist' = Append(hist, [op |-> op, x |-> x, a |-> a, r |-> r, want |-> want,
     dead |-> SetToSortSeq(Tracked(es) \ Alive(es), <), held |-> SetToSortSeq({i \in Tracked(es) : es[i].v}, <)])
Few == Cardinality({i \in DOMAIN ent : ent[i].v}) < 9
Fl == <<"np", "arr", "ba", "mv", "ct", "ro">>
\* a little of everything: sizes, null rows and kinds of exporters follow from the history so far
Pick(m) == (nr * 5 + Len(hist) * 3 + N) % m
Zs(t, n, w) == IF w % 3 # 0 \/ n = 0 THEN {} ELSE {(w % n) + 1}
Fresh(t, g, n, w) == [t |-> t, g |-> g, n |-> n, nr |-> nr, z |-> Zs(t, n, w)]

NewBuilder(t) == Few /\ ent' = Append(ent, E("bld", {}, "new", None, t)) /\ nr' = nr /\ Log("bld", N + 1, <<t>>, "ok", <<>>)
\* all the buffers at once; the variables of the sources stay or go
Fill(b, n, keep) == LET t == ent[b].b
                        a == Fresh(t, IF t = WKB THEN 1 + (Pick(4) \div 2) ELSE Geom(t), n, Pick(9))
                        k == NSet(a)
  IN /\ ent[b].s = "new" /\ (keep => Cardinality({i \in DOMAIN ent : ent[i].v}) < 6)
     /\ ent' = [ent EXCEPT ![b].s = "full", ![b].a = a, ![b].r = (N + 1)..(N + k)] \o [j \in 1..k |-> [E("src", {}, Fl[((Pick(6) + j) % 6) + 1], a, j) EXCEPT !.v = keep]]
     /\ nr' = nr + NCoords(a) + 1
     /\ Log("fill", b, <<t, n, IF keep THEN 1 ELSE 0, IF a.z = {} THEN 0 ELSE 1, a.g>> \o SetToSortSeq(a.z, <), "ok", [s |-> [j \in 1..k |-> <<N + j, Fl[((Pick(6) + j) % 6) + 1]>>], b |-> Buffers(a), rows |-> IF t = WKB THEN Rows([a EXCEPT !.z = {}]) ELSE <<>>])
\* one of them once more, from another object
SetAgain(b, i, keep) ==
  /\ ent[b].s = "full" /\ i \in ent[b].r /\ ent[i].s # "rev"
  /\ ent' = Append([ent EXCEPT ![b].r = (@ \ {i}) \cup {N + 1}], [E("src", {}, Fl[(Pick(5) % 6) + 1], ent[i].a, ent[i].b) EXCEPT !.v = keep])
  /\ nr' = nr /\ Log("again", b, <<i, N + 1, IF keep THEN 1 ELSE 0>>, "ok", <<Fl[(Pick(5) % 6) + 1]>>)
\* memory that is not laid out as a buffer: refused, or the same values arrive
SetSpread(b, i) == /\ ent[b].s = "full" /\ i \in ent[b].r /\ Last(hist).op # "spread" /\ UNCHANGED ent /\ nr' = nr /\ Log("spread", b, <<i>>, "any", <<>>)
\* a buffer there is no place for, elements of another size, something that is no buffer
SetBad(b, w) == ent[b].s \in {"new", "full"} /\ UNCHANGED ent /\ nr' = nr /\ Log("bad", b, <<w>>, "raised", <<>>)
\* the objects that were given cannot be resized into somebody else's memory
Grow(i) == ent[i].k = "src" /\ ent[i].v /\ ent[i].s \in {"arr", "ba"} /\ Last(hist).op # "grow" /\ UNCHANGED ent /\ nr' = nr /\ Log("grow", i, <<>>, "any", <<>>)
Finish(b) == /\ Few /\ ent[b].s = "full"
             /\ ent' = Append([ent EXCEPT ![b].s = "new", ![b].r = {}, ![b].a = None], E("arr", ent[b].r, "live", ent[b].a, 1))
             /\ nr' = nr /\ Log("fin", b, <<N + 1>>, "ok", <<>>)
\* an array that somebody else made
Given(t, n) == LET a == Fresh(t, IF t >= WKB THEN 1 + (Pick(4) \div 2) ELSE Geom(t), n, Pick(9)) IN
  /\ Few /\ ent' = ent \o <<[E("res", {}, "", None, 0) EXCEPT !.v = FALSE], E("arr", {N + 1}, "live", a, 1)>>
  /\ nr' = nr + NCoords(a) + 1
  /\ Log("given", N + 2, <<t, N + 1, IF a.z = {} THEN 0 ELSE 1, a.g, n>> \o SetToSortSeq(a.z, <), "ok", [s |-> <<>>, b |-> IF t = WKT THEN <<>> ELSE Buffers(a), rows |-> IF t >= WKB THEN Rows([a EXCEPT !.z = {}]) ELSE <<>>])
Shown(a) == [t |-> a.t, g |-> a.g, rows |-> Rows(a)]
CanShow(a) == a.t \in KernelTypes \/ (a.t = 990 /\ a.g # 990)
Dump(x) == ent[x].s = "live" /\ CanShow(ent[x].a) /\ UNCHANGED ent /\ nr' = nr /\ Log("dump", x, <<>>, "ok", Shown(ent[x].a))
View(x) == Few /\ ent[x].s = "live" /\ (ent[x].a.t \in BuilderTypes \cup KernelTypes) /\ ent[x].a.t # WKT /\ (ent[x].a.t # 990 \/ ent[x].a.g = 990) /\ ent' = Append(ent, E("view", {x}, "", ent[x].a, ent[x].b)) /\ nr' = nr /\ Log("view", N + 1, <<x, ent[x].a.t>>, "ok", <<>>)
\* as a type the array does not have
ViewBad(x, t) == ent[x].s = "live" /\ t # ent[x].a.t /\ t \notin {WKB, WKT} /\ ent[x].a.t \in {WKB, WKT} /\ UNCHANGED ent /\ nr' = nr /\ Log("viewbad", x, <<t>>, "raised", <<>>)
ViewGone(x) == ent[x].s # "live" /\ ent[x].a.t # 0 /\ UNCHANGED ent /\ nr' = nr /\ Log("viewbad", x, <<ent[x].a.t>>, "raised", <<>>)
Exact(e) == e.b = 1
Bufs(v) == Few /\ ent' = Append(ent, E("buf", {v}, "", ent[v].a, ent[v].b)) /\ nr' = nr
           /\ Log("bufs", N + 1, <<v>>, "ok", [b |-> Buffers(ent[v].a), exact |-> Exact(ent[v]), rows |-> IF ent[v].a.t = WKB THEN Rows([ent[v].a EXCEPT !.z = {}]) ELSE <<>>, g |-> ent[v].a.g])
Mem(p, j) == Few /\ j \in DOMAIN Buffers(ent[p].a) /\ Buffers(ent[p].a)[j].f # "B" /\ Exact(ent[p]) /\ ~(ent[p].a.t = WKB /\ ent[p].a.n = 0)
             /\ ent' = Append(ent, E("mem", {p}, "", ent[p].a, j)) /\ nr' = nr /\ Log("mem", N + 1, <<p, j>>, "ok", <<>>)
Read(m) == UNCHANGED ent /\ nr' = nr /\ Log("read", m, <<>>, "ok", Buffers(ent[m].a)[ent[m].b])
\* what is released is gone at once; nobody may look at it any more
Release(x) == /\ IF ent[x].s = "live" THEN Users(ent, x) = {} ELSE TRUE
              /\ ent' = [ent EXCEPT ![x].s = "gone", ![x].r = {}] /\ nr' = nr
              /\ Log("release", x, <<>>, IF ent[x].s = "live" THEN "ok" ELSE "raised", <<>>)
\* moved to somebody who releases it without holding the interpreter
Export(x) == /\ ent[x].s = "live" /\ Users(ent, x) = {} /\ Few
             /\ ent' = Append([ent EXCEPT ![x].s = "gone", ![x].r = {}], E("own", ent[x].r, "", ent[x].a, 0)) /\ nr' = nr /\ Log("export", N + 1, <<x>>, "ok", <<>>)
Drop(x) == ent[x].v /\ ent' = [ent EXCEPT ![x].v = FALSE] /\ nr' = nr /\ Log("del", x, <<ent[x].k>>, "ok", <<>>)

(* ------------------------------- kernels ------------------------------- *)
Names == <<"format_wkt", "as_geoarrow", "as_geoarrow", "void", "box_agg", "unique_geometry_types_agg", "void_agg", "box", "visit_void_agg">>
Agg(k) == k \in {5, 6, 7, 9}
NewKernel(k) == Few /\ ent' = Append(ent, E("ker", {}, "new", None, k)) /\ nr' = nr /\ Log("ker", N + 1, <<Names[k]>>, "ok", <<>>)
NoKernel(w) == UNCHANGED ent /\ nr' = nr /\ Log("noker", 0, <<w>>, "raised", <<>>)
OutT(k, t, g) == CASE k = 1 -> WKT [] k = 2 -> WKB [] k = 3 -> g + 10000 * (nr % 2) [] k \in {5, 8} -> 990 [] k = 6 -> 4 [] OTHER -> 0
\* what a kernel is started with: arrays of t, for as_geoarrow of geometry g
Start(k, t, g) == /\ ent[k].s = "new" /\ (t < WKB => g = Geom(t))
                  /\ ent' = [ent EXCEPT ![k].s = "on", ![k].a = [None EXCEPT !.t = t, !.g = g, !.nr = OutT(ent[k].b, t, g)]] /\ nr' = nr + 1
                  /\ Log("start", k, <<t, OutT(ent[k].b, t, g)>>, "ok", <<>>)
StartBad(k) == ent[k].s = "new" /\ ent[k].b \notin {4, 7} /\ ent' = [ent EXCEPT ![k].s = "bad"] /\ nr' = nr /\ Log("startbad", k, <<nr % 2>>, "raised", <<>>)
PushGone(k, x) == ent[k].s = "on" /\ ent[x].s # "live" /\ UNCHANGED ent /\ nr' = nr /\ Log("pushgone", k, <<x, IF Agg(ent[k].b) THEN 1 ELSE 0>>, "raised", <<>>)
Fits(k, x) == ent[k].s = "on" /\ ent[x].s = "live" /\ ent[x].a.t = ent[k].a.t /\ (ent[k].b = 3 => ent[x].a.g = ent[k].a.g)
Push(k, x) == /\ ~Agg(ent[k].b) /\ Fits(k, x) /\ Few
              /\ LET a == IF ent[k].b = 4 THEN None ELSE [ent[x].a EXCEPT !.t = ent[k].a.nr]
                 IN ent' = Append(ent, E("arr", {}, "live", IF ent[k].b = 4 THEN [None EXCEPT !.n = ent[x].a.n] ELSE a, IF a.z = {} THEN 1 ELSE 0))
              /\ nr' = nr /\ Log("push", k, <<x, N + 1>>, "ok", <<>>)
PushAgg(k, x) == /\ Agg(ent[k].b) /\ Fits(k, x) /\ ent' = [ent EXCEPT ![k].a.z = @ \cup {x}] /\ nr' = nr /\ Log("pushagg", k, <<x>>, "ok", <<>>)
\* text that is no geometry, and bytes that end too early
PushBad(k) == ~Agg(ent[k].b) /\ ent[k].s = "on" /\ ent[k].b # 4 /\ ent[k].a.t \in {WKB, WKT} /\ UNCHANGED ent /\ nr' = nr /\ Log("pushbad", k, <<ent[k].a.t>>, "raised", <<>>)
Seen(k) == UNION {{i \in 1..ent[x].a.n : i \notin ent[x].a.z} \X {x} : x \in ent[k].a.z}
CoordsOf(k) == UNION {UNION {{c : c \in {Row(ent[x].a, i)[j] : j \in DOMAIN Row(ent[x].a, i)}} : i \in {i \in 1..ent[x].a.n : i \notin ent[x].a.z}} : x \in ent[k].a.z}
TypesOf(k) == {ent[p[2]].a.g : p \in {p \in Seen(k) : Row(ent[p[2]].a, p[1]) # <<>>}}
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxS(X) == CHOOSE x \in X : \A y \in X : x >= y
Want(k) == CASE ent[k].b = 5 -> [k |-> "box", v |-> IF CoordsOf(k) = {} THEN <<>> ELSE <<MinS(CoordsOf(k)), MaxS(CoordsOf(k))>>]
             [] ent[k].b = 6 -> [k |-> "types", v |-> SetToSortSeq(TypesOf(k), <)]
             [] ent[k].b \in {7, 9} -> [k |-> "null", v |-> <<1>>]
             [] OTHER -> [k |-> "none", v |-> <<>>]
End1(k) == ent[k].s = "on" /\ ent' = [ent EXCEPT ![k].s = "done"] /\ nr' = nr /\ Log(IF Agg(ent[k].b) THEN "finagg" ELSE "finish", k, <<>>, "ok", Want(k))

(* ------------------------------- programs ------------------------------ *)
Arrs == Var("arr")
Some(m) == (Len(hist) * 7 + nr * 3 + N) % m = 0
OnBuilders ==
  \/ \E t \in BuilderTypes : (Len(hist) = 0 \/ (t + nr) % 4 = 0) /\ Var("bld") = {} /\ NewBuilder(t)
  \/ \E b \in Var("bld") :
       \/ \E n \in 0..3 : \E keep \in BOOLEAN : Fill(b, n, keep)
       \/ \E i \in DOMAIN ent : \E keep \in BOOLEAN : (i + nr) % 3 = 0 /\ SetAgain(b, i, keep)
       \/ \E i \in DOMAIN ent : (i + nr) % 3 = 1 /\ SetSpread(b, i)
       \/ \E w \in 1..6 : Some(2) /\ (w + Len(hist)) % 6 = 0 /\ SetBad(b, w)
       \/ Finish(b)
  \/ \E i \in DOMAIN ent : Grow(i)
OnArrays ==
  \/ \E t \in KernelTypes : Cardinality(Arrs) < 3 /\ (t + Len(hist)) % 3 = 0 /\ \E n \in 0..3 : (n + nr) % 2 = 0 /\ Given(t, n)
  \/ \E x \in Arrs : (Dump(x) /\ (hist = <<>> \/ Last(hist).op # "dump")) \/ View(x) \/ (Some(3) /\ (Release(x) \/ ViewGone(x) \/ Export(x) \/ \E t \in {1, 10002, 6} : ViewBad(x, t)))
  \/ \E v \in Var("view") : Bufs(v)
  \/ \E p \in Var("buf") : \E j \in 1..6 : (j + Len(hist)) % 3 = 0 /\ Mem(p, j)
  \/ \E m \in Var("mem") : Read(m)
  \/ \E x \in DOMAIN ent : (x + Len(hist) + nr) % 4 = 0 /\ Drop(x)
OnKernels ==
  \/ \E k \in 1..9 : (k + nr) % 2 = 0 /\ Cardinality(Var("ker")) < 2 /\ NewKernel(k)
  \/ \E w \in 1..2 : Some(5) /\ NoKernel(w)
  \/ \E k \in Var("ker") :
       \/ \E t \in KernelTypes : \E g \in 1..2 : ((\E x \in Arrs : ent[x].a.t = t) \/ (t + nr) % 5 = 0) /\ Start(k, t, g)
       \/ (Some(4) /\ StartBad(k)) \/ (Some(2) /\ PushBad(k)) \/ (Some(2) /\ End1(k))
       \/ \E x \in Arrs : Push(k, x) \/ PushAgg(k, x) \/ (Some(2) /\ PushGone(k, x))
Step == OnArrays \/ (Suite \in {"walk", "memory"} /\ OnBuilders) \/ (Suite \in {"walk", "kernels"} /\ OnKernels)
Init == ent = <<>> /\ hist = <<>> /\ nr \in (IF Suite = "short" THEN {3} ELSE 0..11) /\ ended = FALSE
\* short programs: one builder, one array, one path to its memory
Short ==
  \/ N = 0 /\ \E t \in {1, 6, WKB} : NewBuilder(t)
  \/ \E b \in Var("bld") : \/ \E n \in {0, 2} : \E keep \in BOOLEAN : N = 1 /\ Fill(b, n, keep)
                           \/ (\E i \in DOMAIN ent : i = 2 /\ SetAgain(b, i, FALSE)) \/ (Arrs = {} /\ Finish(b))
  \/ \E x \in Arrs : (Cardinality(Var("view")) = 0 /\ View(x)) \/ Release(x) \/ Export(x)
  \/ \E v \in Var("view") : Cardinality(Var("buf")) = 0 /\ Bufs(v)
  \/ \E p \in Var("buf") : \E j \in {1, 3} : Cardinality(Var("mem")) = 0 /\ Mem(p, j)
  \/ \E m \in Var("mem") : Last(hist).op # "read" /\ Read(m)
  \/ \E x \in DOMAIN ent : Drop(x)
Next == IF Len(hist) < Steps THEN (IF Suite = "short" THEN Short ELSE Step) /\ UNCHANGED ended
        ELSE ~ended /\ ended' = TRUE /\ UNCHANGED <<ent, hist, nr>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* everything an object refers to existed before it; arrays own what they were finished with
Wellfounded == \A i \in DOMAIN ent : ent[i].r \subseteq DOMAIN ent
NoDangling == \A i \in Alive(ent) : ent[i].r \subseteq Alive(ent)
\* a readable path leads to an array that was neither released nor moved
Readable == \A i \in Alive(ent) : ent[i].k \in {"view", "buf", "mem"} => \E x \in Reach(ent, {i}) : ent[x].k = "arr" /\ ent[x].s = "live"
\* each source is referred to by at most one builder, array or owner
OneOwner == \A i \in Tracked(ent) : Cardinality({j \in DOMAIN ent : i \in ent[j].r}) <= 1
\* offsets are those of lists: from 0 on, in order, and the last one is the number of elements below
Consistent == \A i \in DOMAIN ent : ent[i].k = "arr" /\ ent[i].a.t \notin {0, WKB, WKT} =>
  LET a == ent[i].a IN \A l \in 1..Levels(a.g) : LET o == Off(a, l) IN
     /\ o[1] = 0 /\ \A k \in 1..(Len(o) - 1) : o[k] <= o[k + 1]
     /\ o[Len(o)] = IF l = Levels(a.g) THEN NCoords(a) ELSE Elems(a, l + 1)
\* what died stays dead
Dies == [][Tracked(ent) \ Alive(ent) \subseteq Tracked(ent') \ Alive(ent')]_vars
Emitted == (Emit /\ ended) => PrintT(<<"CASE", ToJson([hist |-> hist, last |-> [i \in DOMAIN ent |-> [k |-> ent[i].k, v |-> ent[i].v]], tracked |-> SetToSortSeq(Tracked(ent), <)])>>)
=============================================================================

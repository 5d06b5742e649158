------------------------------- MODULE SerView ------------------------------
(***************************************************************************)
(* Reading (slices of) arrays of serialized geometries: 32 and 64 bit      *)
(* offsets and string/binary views.  The scenario chooses the items, the   *)
(* array offset, unused bytes and elements around them, for views which    *)
(* data buffer each value lives in (values of up to 12 bytes are inline),  *)
(* and the range to visit.  Layout gives the physical position of every    *)
(* value; Decode is what Arrow says the element is; the reader steps       *)
(* through the range.                                                      *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS Shard, Shards, Full, Emit
VARIABLES cs, i, evs
vars == <<cs, i, evs>>

Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE 3
Trees == << Pt(XY, 1), Ls(XY, 2), Empty(LS, XY), Pg(XYZ, <<3, 1>>), Coll(GC, XY, << Pt(XY, 1), MPs(XYM, <<1, 1>>) >>), Pt(XYZM, 1), Empty(GC, XYM) >>
\* items: 0 null, n the n-th tree; coordinates are numbered from 0 within each item
Tok(txt, k) == IF txt THEN WktOf(Trees[k], 0, TRUE) ELSE WkbOf(Trees[k], 0)
TextLen(tk) == IF tk[1] = "s" THEN Len(tk[2])
               ELSE LET nv == NVals(tk[2])  ax == Axes(tk[2]) IN
                    Sum([j \in 1..(tk[4] * nv) |-> Digits(10 * (tk[3] + (j - 1) \div nv) + ax[((j - 1) % nv) + 1])])
                    + tk[4] * (nv - 1) + 2 * (tk[4] - 1)
Size(txt, k) == IF k = 0 THEN 0 ELSE IF txt THEN Sum([j \in DOMAIN Tok(txt, k) |-> TextLen(Tok(txt, k)[j])]) ELSE Bytes(Tok(txt, k))

Junk == 5     \* unused bytes covered by each element in front of the offset
\* position of item j (1-based): <<buffer, start, size>>; buffer 0 = inline in the view
Pos(s, j) ==
  LET sz == Size(s.txt, s.items[j]) IN
  IF s.fmt # "view" THEN <<1, s.o * Junk + Sum([m \in 1..(j - 1) |-> Size(s.txt, s.items[m])]), sz>>
  ELSE IF sz <= 12 THEN <<0, 0, sz>>
  ELSE LET b == 1 + ((j + s.o) % s.nbuf)
           before == {m \in 1..(j - 1) : 1 + ((m + s.o) % s.nbuf) = b /\ Size(s.txt, s.items[m]) > 12}
       IN <<b, 3 + FoldLeft(LAMBDA a, m : a + Size(s.txt, s.items[m]) + 2, 0, SetToSeq(before)), sz>>
\* which tree starts at a physical position (what the bytes there spell)
ValueAt(s, p) == LET js == {j \in DOMAIN s.items : s.items[j] # 0 /\ (Pos(s, j) = p)} IN
                 IF js = {} THEN 0 ELSE s.items[CHOOSE j \in js : TRUE]
Decode(s, e) == IF s.items[e] = 0 THEN <<>> ELSE << Trees[IF Pos(s, e)[1] = 0 THEN s.items[e] ELSE ValueAt(s, Pos(s, e))] >>
Want(s) == Flat([j \in 1..s.rl |-> LET k == s.items[s.ro + j] IN ItemEv(IF k = 0 THEN <<>> ELSE << Trees[k] >>, 0, 0)])
Visit == /\ i < cs.rl /\ evs' = evs \o ItemEv(Decode(cs, cs.ro + i + 1), 0, 0) /\ i' = i + 1 /\ UNCHANGED cs

\* what whole-array visitors of coordinates and edges see: <<dimensions, coordinate numbers...>>
RECURSIVE VertsOf(_, _)
VertsOf(g, s) == [m \in 1..(g.n + Sum(g.r)) |-> <<g.d, s + m - 1>>] \o Flat([j \in DOMAIN g.k |-> VertsOf(g.k[j], KidStart(g, s, j))])
SeqEdges(d, s, n) == IF n < 2 THEN <<>> ELSE [m \in 1..(n - 1) |-> <<d, s + m - 1, s + m>>]
RECURSIVE EdgesOf(_, _)
EdgesOf(g, s) == IF g.t = PT THEN [m \in 1..g.n |-> <<g.d, s, s>>]
                 ELSE SeqEdges(g.d, s, g.n) \o Flat([j \in DOMAIN g.r |-> SeqEdges(g.d, RingStart(g, s, j), g.r[j])])
                      \o Flat([j \in DOMAIN g.k |-> EdgesOf(g.k[j], KidStart(g, s, j))])
InWin(s, F(_)) == Flat([j \in 1..s.rl |-> LET k == s.items[s.ro + j] IN IF k = 0 THEN <<>> ELSE F(Trees[k])])

Ranges(n) == {<<r, m>> \in (0..n) \X (0..n) : r + m <= n}
ItemsOf(c) == [j \in 1..(1 + (c % 6)) |-> ((c \div 6) * (3 * j + 1) + (j * j) + c) % (Len(Trees) + 1)]
Fmts == <<"i32", "i64", "view">>
Scen == UNION {UNION {{[items |-> ItemsOf(c), o |-> o, txt |-> (c + o) % 2 = 0, fmt |-> f, nbuf |-> 1 + ((c + o) % 3), ro |-> r[1], rl |-> r[2]]
                 : r \in {x \in Ranges(Len(ItemsOf(c))) : Full \/ (x[1] + x[2] + c) % 2 = 0}}
              : o \in {0, 1, 3, 9}, f \in {Fmts[k] : k \in 1..3}} : c \in {x \in 0..(IF Full THEN 95 ELSE 47) : x % Shards = Shard}}
Init == cs \in Scen /\ i = 0 /\ evs = <<>>
Spec == Init /\ [][Visit]_vars
Done == i = cs.rl
Faithful == Done => evs = Want(cs)
Disjoint == \A a, b \in DOMAIN cs.items : (a < b /\ cs.items[a] # 0 /\ cs.items[b] # 0) =>
   LET p == Pos(cs, a)  q == Pos(cs, b) IN p[1] = 0 \/ p[1] # q[1] \/ p[2] + p[3] <= q[2]
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson([items |-> cs.items, o |-> cs.o, txt |-> cs.txt, fmt |-> cs.fmt, nbuf |-> cs.nbuf, ro |-> cs.ro, rl |-> cs.rl, junk |-> Junk,
    pos |-> [j \in DOMAIN cs.items |-> Pos(cs, j)], toks |-> [k \in DOMAIN Trees |-> Tok(cs.txt, k)], evs |-> evs,
    verts |-> InWin(cs, LAMBDA g : VertsOf(g, 0)), edges |-> InWin(cs, LAMBDA g : EdgesOf(g, 0))])>>)
=============================================================================

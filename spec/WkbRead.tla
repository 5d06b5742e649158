------------------------------ MODULE WkbRead ------------------------------
(***************************************************************************)
(* Reading well-known binary, byte by byte.                                *)
(*                                                                         *)
(* Enc writes a tree with an independent byte order / dialect for every    *)
(* part; a mutation damages the bytes; the reader machine consumes them    *)
(* with explicit bounds (every read states how many bytes it needs) and    *)
(* either accepts, having produced an event stream whose coordinates are   *)
(* references <<"c", dims, position, count, byteorder>> into the input, or *)
(* refuses.                                                                *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS Suite, Shard, Shards, MaxDepth, Emit

VARIABLES cs, bytes, pos, stk, evs, phase
vars == <<cs, bytes, pos, stk, evs, phase>>

(* ------------------------------- encoding ------------------------------ *)
\* dialect of a part: 0..7; byte order = dl % 2 (1 little), flavour = dl \div 2:
\* 0 ISO, 1 EWKB, 2 EWKB with SRID, 3 flags and thousands in one type word (both state both,
\* or the flags state Z and the thousands M, or the other way round, or with an SRID)
RECURSIVE NNodes(_)
NNodes(g) == 1 + Sum([i \in DOMAIN g.k |-> NNodes(g.k[i])])
KidNode(g, i0, i) == i0 + 1 + SumTo([j \in DOMAIN g.k |-> NNodes(g.k[j])], i - 1)

HasZ(d) == d \in {XYZ, XYZM}   HasM(d) == d \in {XYM, XYZM}
HasSrid(dl, i) == dl \div 2 = 2 \/ (dl \div 2 = 3 /\ i % 4 = 3)
TypeHi(d, dl, i) == IF dl < 2 THEN 0 ELSE (IF HasZ(d) /\ (dl < 6 \/ i % 3 # 2) THEN 32768 ELSE 0)
                                      + (IF HasM(d) /\ (dl < 6 \/ i % 3 # 1) THEN 16384 ELSE 0) + (IF HasSrid(dl, i) THEN 8192 ELSE 0)
TypeLo(t, d, dl, i) == IF dl < 2 THEN t + (d - 1) * 1000
                       ELSE IF dl < 6 THEN t
                       ELSE t + (IF HasZ(d) /\ i % 3 # 1 THEN 1000 ELSE 0) + (IF HasM(d) /\ i % 3 # 2 THEN 2000 ELSE 0)
Srid(i, dl) == CASE (i + dl) % 3 = 0 -> <<0, 0>> [] (i + dl) % 3 = 1 -> <<0, 4326>> [] OTHER -> <<4 * i, 4326 + i>>
\* tokens: <<"b", byte, class>>, <<"u", hi, lo, e, class>>, <<"c", d, start, n, e>>, <<"nan", k, e>>
U(hi, lo, e, cl) == <<"u", hi, lo, e, cl>>
RECURSIVE Enc(_, _, _, _)
Enc(g, s, i, dial) ==
  LET dl == dial[i]  e == dl % 2
      head == << <<"b", e, 1>>, U(TypeHi(g.d, dl, i), TypeLo(g.t, g.d, dl, i), e, 2) >>
              \o (IF HasSrid(dl, i) THEN << U(Srid(i, dl)[1], Srid(i, dl)[2], e, 3) >> ELSE <<>>)
  IN head \o
     CASE g.t = PT -> (IF g.n = 0 THEN << <<"nan", NVals(g.d), e>> >> ELSE << <<"c", g.d, s, 1, e>> >>)
       [] g.t = LS -> << U(0, g.n, e, 4), <<"c", g.d, s, g.n, e>> >>
       [] g.t = PG -> << U(0, Len(g.r), e, 4) >>
                      \o Flat([j \in DOMAIN g.r |-> << U(0, g.r[j], e, 4), <<"c", g.d, RingStart(g, s, j), g.r[j], e>> >>])
       [] OTHER -> << U(0, Len(g.k), e, 4) >>
                   \o Flat([j \in DOMAIN g.k |-> Enc(g.k[j], KidStart(g, s, j), KidNode(g, i, j), dial)])

Order(b, e) == IF e = 1 THEN Reverse(b) ELSE b          \* b: big-endian bytes
B16(x) == <<x \div 256, x % 256>>
\* IEEE double of a small positive integer: exponent and 20 mantissa bits suffice
Log2(v) == CHOOSE e \in 0..19 : 2^e <= v /\ v < 2^(e + 1)
DblHi(v) == LET e == Log2(v) IN (1023 + e) * 1048576 + (v - 2^e) * 2^(20 - e)
Dbl(v) == LET h == DblHi(v) IN <<h \div 16777216, (h \div 65536) % 256, (h \div 256) % 256, h % 256, 0, 0, 0, 0>>
NaN8 == <<127, 248, 0, 0, 0, 0, 0, 0>>
CoordBytes(d, s, n, e) ==
  LET nv == NVals(d)  ax == Axes(d) IN
  Flat([k \in 1..(n * nv) |-> Order(Dbl(10 * (s + (k - 1) \div nv) + ax[((k - 1) % nv) + 1]), e)])
TokBytesE(t) == CASE t[1] = "b" -> <<t[2]>>
                  [] t[1] = "u" -> Order(B16(t[2]) \o B16(t[3]), t[4])
                  [] t[1] = "nan" -> Flat([j \in 1..t[2] |-> Order(NaN8, t[3])])
                  [] OTHER -> CoordBytes(t[2], t[3], t[4], t[5])
ToBytes(toks) == Flat([i \in DOMAIN toks |-> TokBytesE(toks[i])])
TokClass(t) == CASE t[1] = "b" -> <<t[3]>> [] t[1] = "u" -> [j \in 1..4 |-> t[5]]
                 [] t[1] = "nan" -> [j \in 1..(8 * t[2]) |-> 0] [] OTHER -> [j \in 1..(8 * NVals(t[2]) * t[4]) |-> 0]
Classes(toks) == Flat([i \in DOMAIN toks |-> TokClass(toks[i])])

(* ------------------------------ scenarios ------------------------------ *)
Dial(g, code) == [i \in 1..NNodes(g) |-> IF i = 1 THEN code % 8 ELSE IF i = 2 THEN (code \div 8) % 8 ELSE IF i = 3 THEN (code \div 64) % 8
                                        ELSE (code + i * ((code % 5) + 1)) % 8]
Codes(g) == CASE NNodes(g) = 1 -> 0..7 [] NNodes(g) = 2 -> 0..63
              [] OTHER -> {c \in 0..511 : (c + c \div 8 + c \div 64 + g.t + g.d) % 3 = Shard % 3 \/ Shards = 1}
SmallTrees == UNION {{Pt(d, 1), Pt(d, 0), Ls(d, 0), Ls(d, 2), Pg(d, <<>>), Pg(d, <<2, 1>>), Pg(d, <<0>>), MPs(d, <<1>>), MPs(d, <<1, 0>>),
                      MLs(d, <<2, 0, 1>>), MGs(d, << <<1, 2>>, <<>> >>), Empty(MP, d), Empty(GC, d),
                      Coll(GC, d, << Pt(d, 1), Ls(d, 2) >>), Coll(GC, d, << Coll(GC, d, << Pt(d, 1) >>), Pg(d, <<1>>) >>)} : d \in Dims}
              \cup {Coll(GC, d, << Pt(e, 1), Ls(d, 1) >>) : d \in Dims, e \in Dims}
BigTrees == {Ls(d, n) : d \in Dims, n \in {63, 64, 65, 96, 97, 127, 128, 129, 191, 192, 193, 194, 255, 256, 257, 384, 385, 386}}
            \cup {Pg(d, <<n, 3, n>>) : d \in {XY, XYM}, n \in {96, 128, 129, 192, 193}}
            \cup {Coll(MP, d, [i \in 1..n |-> Pt(d, 1)]) : d \in {XYZ}, n \in {65}}
DamTrees == {Pt(XY, 1), Pt(XYZM, 1), Ls(XY, 0), Ls(XY, 2), Ls(XYM, 1), Pg(XY, <<>>), Pg(XY, <<2, 1>>), Pg(XYZ, <<1, 0, 1>>), MPs(XY, <<1, 1>>), MPs(XYZM, <<1>>),
             MLs(XY, <<2, 1>>), MLs(XYM, <<1>>), MGs(XY, << <<1, 1>>, <<1>> >>), Empty(GC, XYZ), Coll(GC, XY, << Pt(XY, 1), Ls(XYZ, 1) >>),
             Coll(GC, XY, << Coll(GC, XY, << Pg(XY, <<1>>) >>), Pt(XY, 1) >>), Coll(GC, XY, << Ls(XY, 3), Ls(XY, 1), Pt(XY, 1) >>)}
DamCodes == {0, 1, 5 + 8 * 2 + 64 * 4, 4 + 8 * 3 + 64, 2 + 8 * 1 + 64 * 5, 3 + 8 * 3 + 64 * 3, 6 + 8 * 7 + 64}
RECURSIVE Tower(_, _)
Tower(m, g) == IF m = 0 THEN g ELSE Coll(GC, XY, << Tower(m - 1, g) >>)

ByteVals(cl, b) == CASE cl = 1 -> {0, 1, 2, 73, 129, 255} \ {b}
                     [] cl = 2 -> {0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 128, 160, 192, 255, (b + 1) % 256, (b + 16) % 256} \ {b}
                     [] cl = 3 -> {255}
                     [] OTHER -> {0, 1, 2, 3, 9, 16, 32, 64, 128, 255, (b + 1) % 256} \ {b}
Muts(bs, cl) == {<<"trunc", n>> : n \in 0..(Len(bs) - 1)} \cup {<<"more", n>> : n \in {1, 3}}
                \cup UNION {{<<"set", p, v>> : v \in ByteVals(cl[p], bs[p])} : p \in {q \in DOMAIN bs : cl[q] # 0}}
Damage(bs, m) == CASE m[1] = "none" -> bs
                   [] m[1] = "trunc" -> SubSeq(bs, 1, m[2])
                   [] m[1] = "more" -> bs \o [i \in 1..m[2] |-> i - 1]
                   [] m[1] = "set" -> [bs EXCEPT ![m[2]] = m[3]]
                   [] m[1] = "set2" -> [bs EXCEPT ![m[2]] = m[3], ![m[4]] = m[5]]
Case(g, code, m) == [g |-> g, dial |-> Dial(g, code), m |-> m]
\* two count bytes changed at once (products of counts and sizes)
Pairs(bs, cl) == {<<"set2", p, v, q, w>> : p \in {x \in DOMAIN bs : cl[x] = 4 /\ bs[x] = 0}, q \in {x \in DOMAIN bs : cl[x] \in {2, 4}},
                  v \in {16, 32, 64, 128}, w \in {0, 16, 64, 128}}

(* ------------------------------- reading ------------------------------- *)
\* the damaged bytes live in the state; everything below only looks at bytes[pos..]
Left == Len(bytes) - pos + 1
U32At(p, e) == LET b == [j \in 1..4 |-> IF e = 1 THEN bytes[p + 4 - j] ELSE bytes[p + j - 1]]
               IN <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>     \* <<high, low>> halves
\* what a type word means: [ok, t, d, srid]
Bit(h, w) == (h \div w) % 2
Meaning(u) ==
  LET lo == u[2]
      \* bits 16..28 have no meaning and are not looked at
      th == lo \div 1000                        \* ISO thousands
      t  == lo % 1000
      z == Bit(u[1], 32768) = 1 \/ th \in {1, 3}
      m == Bit(u[1], 16384) = 1 \/ th \in {2, 3}
      d == IF z /\ m THEN XYZM ELSE IF z THEN XYZ ELSE IF m THEN XYM ELSE XY
  IN [ok |-> th <= 3 /\ t \in 1..7, t |-> t, d |-> d, srid |-> Bit(u[1], 8192) = 1]

Frame(kind, d, e, n) == [kind |-> kind, d |-> d, e |-> e, left |-> n]
Cap(u) == IF u[1] > 0 THEN 100000 ELSE u[2]      \* no input here holds that many parts
Emit1(es) == evs' = evs \o es
RefuseIt == phase' = "refuse" /\ UNCHANGED <<cs, bytes, pos, stk, evs>>
Parent(st) == IF st = <<>> THEN <<>> ELSE [st EXCEPT ![Len(st)].left = @ - 1]

ReadPart ==
  /\ phase = "run" /\ IF stk = <<>> THEN Len(evs) = 1 ELSE Top(stk).kind # PG /\ Top(stk).left > 0
  /\ IF Left < 5 \/ bytes[pos] \notin {0, 1} THEN RefuseIt
     ELSE LET e == bytes[pos]  ty == Meaning(U32At(pos + 1, e))
              p1 == pos + 5 + (IF ty.srid THEN 4 ELSE 0)
              have == Len(bytes) - p1 + 1
              sz == 8 * NVals(ty.d)
          IN IF ~ty.ok \/ have < 4 THEN RefuseIt
             ELSE IF ty.t = PT
             THEN IF have < sz THEN RefuseIt
                  ELSE /\ Emit1(<< <<"gs", PT, ty.d>>, <<"c", ty.d, p1, 1, e>>, <<"ge">> >>)
                       /\ pos' = p1 + sz /\ stk' = Parent(stk) /\ UNCHANGED <<cs, bytes, phase>>
             ELSE LET n == U32At(p1, e) IN
                  IF ty.t = LS
                  THEN IF n[1] > 0 \/ have - 4 < n[2] * sz THEN RefuseIt
                       ELSE /\ Emit1(<< <<"gs", LS, ty.d>> >> \o (IF n[2] = 0 THEN <<>> ELSE << <<"c", ty.d, p1 + 4, n[2], e>> >>) \o << <<"ge">> >>)
                            /\ pos' = p1 + 4 + n[2] * sz /\ stk' = Parent(stk) /\ UNCHANGED <<cs, bytes, phase>>
                  ELSE IF Len(stk) >= MaxDepth THEN RefuseIt
                  ELSE /\ Emit1(<< <<"gs", ty.t, ty.d>> >>)
                       /\ pos' = p1 + 4 /\ stk' = Append(Parent(stk), Frame(ty.t, ty.d, e, Cap(n))) /\ UNCHANGED <<cs, bytes, phase>>
ReadRing ==
  /\ phase = "run" /\ stk # <<>> /\ Top(stk).kind = PG /\ Top(stk).left > 0
  /\ LET f == Top(stk)  sz == 8 * NVals(f.d) IN
     IF Left < 4 THEN RefuseIt
     ELSE LET n == U32At(pos, f.e) IN
          IF n[1] > 0 \/ Left - 4 < n[2] * sz THEN RefuseIt
          ELSE /\ Emit1(<< <<"rs">> >> \o (IF n[2] = 0 THEN <<>> ELSE << <<"c", f.d, pos + 4, n[2], f.e>> >>) \o << <<"re">> >>)
               /\ pos' = pos + 4 + n[2] * sz /\ stk' = Parent(stk) /\ UNCHANGED <<cs, bytes, phase>>
Close == /\ phase = "run" /\ stk # <<>> /\ Top(stk).left = 0
         /\ Emit1(<< <<"ge">> >>) /\ stk' = Pop(stk) /\ UNCHANGED <<cs, bytes, pos, phase>>
Accept == /\ phase = "run" /\ stk = <<>> /\ Len(evs) > 1
          /\ Emit1(<< <<"fe">> >>) /\ phase' = "ok" /\ UNCHANGED <<cs, bytes, pos, stk>>
Next == ReadPart \/ ReadRing \/ Close \/ Accept

Scen ==
  CASE Suite = "dial" -> UNION {{Case(g, c, <<"none">>) : c \in Codes(g)} : g \in SmallTrees}
    [] Suite = "big"  -> {Case(g, c, <<"none">>) : g \in BigTrees, c \in {0, 1, 4, 3}}
    [] Suite = "deep" -> {Case(Tower(m, g), c, <<"none">>) : m \in {1, 30, 31, 32, 33, 100, 254, 255, 256, 257, 300}, g \in {Pt(XY, 1)}, c \in {1}}
    [] Suite = "damage" -> UNION {UNION {LET t == Enc(g, 0, 1, Dial(g, c)) IN {Case(g, c, m) : m \in Muts(ToBytes(t), Classes(t)) \cup {<<"none">>}}
                                         : c \in {x \in DamCodes : (NNodes(g) > 2 \/ x % 64 # 29) /\ (x + g.t + 3 * g.d + NNodes(g)) % Shards = Shard}} : g \in DamTrees}
    [] Suite = "pairs" -> UNION {LET t == Enc(g, 0, 1, Dial(g, 1)) IN {Case(g, 1, m) : m \in Pairs(ToBytes(t), Classes(t))}
                                  : g \in {Ls(XY, 1), Pg(XYZM, <<1>>), MLs(XYZ, <<1>>), Coll(GC, XY, << Ls(XYZM, 1) >>)}}
    [] OTHER -> {Case(Pt(XY, 1), 0, <<"none">>)}
Init == /\ cs \in Scen
        /\ bytes = Damage(ToBytes(Enc(cs.g, 0, 1, cs.dial)), cs.m)
        /\ pos = 1 /\ stk = <<>> /\ evs = << <<"fs">> >> /\ phase = "run"
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* never looks behind the end
InBounds == pos <= Len(bytes) + 1 /\ \A i \in DOMAIN evs : evs[i][1] = "c" => evs[i][3] + 8 * NVals(evs[i][2]) * evs[i][4] - 1 <= Len(bytes)
\* an undamaged encoding is the tree it encodes, whatever the dialects
RECURSIVE Shape(_)
Shape(es) == [i \in DOMAIN es |-> IF es[i][1] = "c" THEN <<"c", es[i][2], es[i][4]>> ELSE es[i]]
RECURSIVE TreeEv(_, _)
TreeEv(g, s) == \* like Ev, an empty point being one NaN coordinate (start -1)
  << <<"gs", g.t, g.d>> >>
  \o (IF g.t = PT THEN << <<"c", g.d, IF g.n = 0 THEN -1 ELSE s, 1>> >> ELSE IF g.t = LS THEN Chunks(g.d, s, g.n, 0) ELSE <<>>)
  \o Flat([i \in DOMAIN g.r |-> << <<"rs">> >> \o Chunks(g.d, RingStart(g, s, i), g.r[i], 0) \o << <<"re">> >>])
  \o Flat([i \in DOMAIN g.k |-> TreeEv(g.k[i], KidStart(g, s, i))])
  \o << <<"ge">> >>
WantEv == << <<"fs">> >> \o TreeEv(cs.g, 0) \o << <<"fe">> >>
Payload(w, e) == IF w[3] = -1 THEN Flat([j \in 1..NVals(w[2]) |-> Order(NaN8, e[5])]) ELSE CoordBytes(w[2], w[3], w[4], e[5])
Faithful == (phase = "ok" /\ cs.m[1] = "none") =>
  LET w == WantEv IN
  /\ Len(w) = Len(evs)
  /\ \A i \in DOMAIN evs : IF w[i][1] # "c" THEN w[i] = evs[i]
        ELSE /\ evs[i][1] = "c" /\ evs[i][2] = w[i][2] /\ evs[i][4] = w[i][4]
             /\ SubSeq(bytes, evs[i][3], evs[i][3] + 8 * NVals(w[i][2]) * w[i][4] - 1) = Payload(w[i], evs[i])
DepthOf == Depth(cs.g)
NoneRefused == (phase = "refuse" /\ cs.m[1] = "none") => Suite = "deep"
TruncRefused == (phase = "ok") => cs.m[1] # "trunc"
EndianRefused == (phase = "ok" /\ cs.m[1] = "set") =>
   LET c == Classes(Enc(cs.g, 0, 1, cs.dial)) IN c[cs.m[2]] = 1 => cs.m[3] \in {0, 1}
\* a larger count is always refused or eats what follows; it is never silently shortened
\* The edges of a geometry: consecutive coordinates of a line or ring, points as edges of no length.
\* An edge is <<dimensions, first coordinate, second coordinate>>; coordinate -1 is the NaN of an empty point.
EdgeStep(st, e) ==
  IF e[1] = "gs" THEN [st EXCEPT !.pt = e[2] = PT, !.prev = -2]
  ELSE IF e[1] = "rs" THEN [st EXCEPT !.pt = FALSE, !.prev = -2]
  ELSE IF e[1] # "c" \/ e[4] = 0 THEN st
  ELSE LET at(i) == IF e[3] = -1 THEN -1 ELSE e[3] + i - 1 IN
       [st EXCEPT !.prev = at(e[4]),
                  !.out = @ \o (IF st.pt THEN [i \in 1..e[4] |-> <<e[2], at(i), at(i)>>]
                               ELSE (IF st.prev = -2 THEN <<>> ELSE << <<e[2], st.prev, at(1)>> >>) \o [i \in 1..(e[4] - 1) |-> <<e[2], at(i), at(i + 1)>>])]
EdgesOf(es) == FoldLeft(EdgeStep, [pt |-> FALSE, prev |-> -2, out |-> <<>>], es).out
\* as many edges as coordinates, less one for every line or ring that has any
RECURSIVE NEdges(_)
NEdges(x) == (IF x.t = PT THEN 1 ELSE IF x.n = 0 THEN 0 ELSE x.n - 1) + Sum([i \in DOMAIN x.r |-> IF x.r[i] = 0 THEN 0 ELSE x.r[i] - 1])
             + Sum([i \in DOMAIN x.k |-> NEdges(x.k[i])])
EdgeCount == (Suite \in {"dial", "big"} /\ phase = "ok") => Len(EdgesOf(WantEv)) = NEdges(cs.g)
Exact == phase = "ok" => pos <= Len(bytes) + 1 /\ stk = <<>>
Emitted == (Emit /\ phase \in {"ok", "refuse"}) =>
   PrintT(<<"CASE", ToJson([g |-> cs.g, dial |-> cs.dial, m |-> cs.m, bytes |-> IF Suite \in {"big", "deep"} THEN <<>> ELSE bytes,
        toks |-> IF Suite \in {"damage", "pairs"} THEN <<>> ELSE Enc(cs.g, 0, 1, cs.dial), ok |-> phase = "ok",
        rest |-> Len(bytes) - pos + 1, evs |-> IF Suite \in {"damage", "pairs"} THEN evs ELSE WantEv,
        edges |-> IF Suite \in {"dial", "big"} THEN EdgesOf(WantEv) ELSE <<>>,
        wkb |-> IF Suite \in {"dial", "big"} THEN MergeRuns(WkbOf(cs.g, 0)) ELSE <<>>])>>)
=============================================================================

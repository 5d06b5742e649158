-------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* C++ views of native arrays.                                             *)
(*                                                                         *)
(* A view is a window (raw, len) into the top level of a physical array    *)
(* (ArrayView): Slice moves it, and what is in it is found by following    *)
(* raw offsets level by level.  Faithful says this is what Arrow means by  *)
(* the elements of that window.  Over a window run iterators: a position   *)
(* that is incremented, decremented, advanced, retreated, dereferenced,    *)
(* indexed and measured; random access must agree with the sequence.       *)
(***************************************************************************)
EXTENDS ArrayView
CONSTANTS WalkLen, VShard, VShards
VARIABLES raw, len, log, pos, tgt
vvars == <<cs, i, evs, reads, raw, len, log, pos, tgt>>
L == Levels(cs.kind)
Targets == <<"coords", "dim", "list", "ucoords", "udim">>
TNo == CHOOSE k \in 1..5 : Targets[k] = tgt
H(n) == Sum(cs.o) * 3 + Sum(cs.b) * 5 + cs.ro * 7 + cs.rl * 11 + Len(cs.items) * 13 + cs.kind * 17 + cs.d * 29 + n * 19 + TNo * 23 + Shard * 31
\* the dimensions the view is instantiated with: all of them, or a leading part
VD == IF cs.kind = BOX THEN cs.d ELSE IF H(1) % 3 = 0 THEN 1 ELSE IF H(1) % 3 = 1 /\ cs.d = 4 THEN 2 ELSE cs.d

(* ------------------------------- meaning ------------------------------- *)
first == raw - cs.o[1]                       \* the logical element the window starts at
ElemAt(k) == Elem(cs, 1, first + k)
ValidAt(k) == cs.items[first + k + 1].v
RECURSIVE Leaves(_, _)
Leaves(e, l) == IF l > L THEN << e >> ELSE Flat([m \in DOMAIN e |-> Leaves(e[m], l + 1)])
RECURSIVE Seqs(_, _)
Seqs(e, l) == IF l = L THEN << e >> ELSE Flat([m \in DOMAIN e |-> Seqs(e[m], l + 1)])
WindowElems == [k \in 1..len |-> ElemAt(k - 1)]
AllCoords == Flat([k \in 1..len |-> Leaves(ElemAt(k - 1), 1)])
Verts == Flat([k \in 1..len |-> IF ValidAt(k - 1) THEN Leaves(ElemAt(k - 1), 1) ELSE <<>>])
PairsIn(s) == IF Len(s) < 2 THEN <<>> ELSE [m \in 1..(Len(s) - 1) |-> << s[m], s[m + 1] >>]
EdgesIn(e) == IF cs.kind = PT THEN << << e, e >> >> ELSE IF cs.kind = MP THEN [m \in DOMAIN e |-> << e[m], e[m] >>]
              ELSE LET ss == Seqs(e, 1) IN Flat([m \in DOMAIN ss |-> PairsIn(ss[m])])
Edges == Flat([k \in 1..len |-> IF ValidAt(k - 1) THEN EdgesIn(ElemAt(k - 1)) ELSE <<>>])
\* seen in other dimensions: ordinates that are not there are NaN (-1)
Cast(co, to) == [j \in 1..NVals(to) |-> IF \E k \in 1..NVals(VD) : Axes(VD)[k] = Axes(to)[j] THEN co[CHOOSE k \in 1..NVals(VD) : Axes(VD)[k] = Axes(to)[j]] ELSE -1]

(* -------------------------------- machine ------------------------------ *)
RECURSIVE RRange(_, _, _)
RRange(l, a, b) == IF a = b THEN <<>> ELSE IF l > L THEN [m \in 1..(b - a) |-> RCoord(a + m - 1)]
                   ELSE RRange(l + 1, ROff(l, a) + cs.o[l + 1], ROff(l, b) + cs.o[l + 1])
Size == IF tgt = "list" THEN len ELSE Len(AllCoords)
Dim == H(3) % NVals(VD)
Value(p) == IF tgt = "list" THEN <<"e", WindowElems[p + 1]>> ELSE IF tgt \in {"dim", "udim"} THEN <<"n", AllCoords[p + 1][Dim + 1]>> ELSE <<"c", AllCoords[p + 1]>>
VInit == /\ (\E k \in Kinds : \E s \in ScenOf(k) : \E d \in 1..4 : \E t \in {Targets[x] : x \in 1..5} :
               /\ (d = IF k = BOX THEN 1 + ((s.ro + s.rl + Len(s.items) + s.o[1] + Shard) % 4) ELSE s.d)
               /\ (k = BOX => t \in {"coords", "list"})
               /\ (Sum(s.o) * 31 + Sum(s.b) * 17 + s.ro * 7 + s.rl * 3 + Len(s.items) * 5 + Cardinality({j \in DOMAIN s.items : s.items[j].v}) * 29 + k + s.d * 11 + Len(t)) % VShards = VShard
               /\ cs = [s EXCEPT !.d = d] /\ tgt = t)
         /\ i = 0 /\ evs = <<>> /\ reads = {} /\ raw = cs.o[1] /\ len = Len(cs.items) /\ log = <<>> /\ pos = 0
Rest == UNCHANGED <<cs, i, evs, reads, tgt>>
Slice(o, n) == raw' = raw + o /\ len' = n /\ pos' = 0 /\ log' = Append(log, <<"slice", o, n>>) /\ Rest
Log(e) == log' = Append(log, e)
\* one step of an iterator, picked by a number
OpsAt == << "+", "*", "a", "[", "-", "d", "*", "s", "p", "[", "+", "*" >>
Move(w, n) ==
  /\ Rest /\ UNCHANGED <<raw, len>>
  /\ CASE w = "+" /\ pos < Size -> pos' = pos + 1 /\ Log(<<"+">>)
       [] w = "-" /\ pos > 0 -> pos' = pos - 1 /\ Log(<<"-">>)
       [] w = "a" -> LET k == n % (Size - pos + 1) IN pos' = pos + k /\ Log(<<"a", k>>)
       [] w = "s" -> LET k == n % (pos + 1) IN pos' = pos - k /\ Log(<<"s", k>>)
       [] w = "[" /\ Size > 0 /\ tgt # "list" -> LET k == n % Size IN pos' = pos /\ Log(<<"[", k - pos, Value(k)>>)
       [] w = "p" /\ pos < Size /\ tgt \in {"dim", "udim"} -> pos' = pos + 1 /\ Log(<<"p", 0, Value(pos)>>)
       [] w \in {"*", "p"} /\ pos < Size -> pos' = pos /\ Log(<<"*", 0, Value(pos)>>)
       [] OTHER -> pos' = pos /\ Log(<<"d", pos, Size>>)
NS == IF H(5) % 3 = 0 THEN 2 ELSE 1
VNext == /\ Len(log) < NS + WalkLen
         /\ CASE Len(log) = 0 -> Slice(cs.ro, cs.rl)
              [] Len(log) = 1 /\ NS = 2 -> LET o == H(6) % (len + 1) IN Slice(o, H(7) % (len - o + 1))
              [] OTHER -> LET n == (H(0) + VShard) * (2 * Len(log) + 1) * 37 + Len(log) * 101 + pos * 11 IN Move(OpsAt[((n \div 5) % 12) + 1], n \div 7)
VSpec == VInit /\ [][VNext]_vvars

InWindow == 0 <= pos /\ pos <= Size /\ cs.o[1] <= raw /\ raw + len <= cs.o[1] + Len(cs.items)
Follows == Len(log) > NS \/ (/\ \A k \in 0..(len - 1) : RElem(1, raw + k) = ElemAt(k)
           /\ RRange(1, raw, raw + len) = AllCoords
           /\ Len(Verts) <= Len(AllCoords))
VDone == Len(log) = NS + WalkLen
Text(k, d) == [lv |-> Levels(k), nv |-> IF k = BOX THEN 2 * NVals(d) ELSE NVals(d)]
Fits(k, d) == Levels(k) = L /\ (IF k = BOX THEN 2 * NVals(d) ELSE NVals(d)) <= NOrd(cs)
VEmitted == (Emit /\ VDone) =>
   PrintT(<<"CASE", ToJson([kind |-> cs.kind, d |-> cs.d, inter |-> cs.inter, o |-> cs.o, c |-> [j \in 1..NOrd(cs) |-> COff(cs, j)],
       valid |-> [j \in DOMAIN cs.items |-> IF cs.items[j].v THEN 1 ELSE 0],
       lens |-> [l \in 1..(L + 1) |-> LenAt(cs, l)], offs |-> [l \in 1..L |-> OffsBuf(cs, l)],
       ords |-> IF cs.inter THEN << [p \in 1..OrdLen(cs, 1) |-> Stored(cs, 1, p - 1)] >>
                ELSE [j \in 1..NOrd(cs) |-> [p \in 1..OrdLen(cs, j) |-> Stored(cs, j, p - 1)]],
       tgt |-> tgt, log |-> log, dim |-> Dim, vd |-> VD, h |-> H(9),
       ok |-> [k \in 1..len |-> IF ValidAt(k - 1) THEN 1 ELSE 0],
       elems |-> IF tgt = "coords" THEN WindowElems ELSE <<>>, all |-> AllCoords,
       verts |-> IF tgt = "coords" /\ cs.kind # BOX THEN [to \in 1..4 |-> [m \in DOMAIN Verts |-> Cast(Verts[m], to)]] ELSE <<>>,
       edges |-> IF tgt = "coords" /\ cs.kind # BOX THEN [to \in 1..4 |-> [m \in DOMAIN Edges |-> << Cast(Edges[m][1], to), Cast(Edges[m][2], to) >>]] ELSE <<>>,
       uedges |-> IF cs.kind # BOX /\ tgt = "ucoords" THEN [to \in 1..4 |-> [m \in DOMAIN PairsIn(AllCoords) |-> << Cast(PairsIn(AllCoords)[m][1], to), Cast(PairsIn(AllCoords)[m][2], to) >>]] ELSE <<>>,
       fits |-> [k \in 1..7 |-> [d \in 1..4 |-> Fits(IF k = 7 THEN BOX ELSE k, d)]]])>>)
=============================================================================

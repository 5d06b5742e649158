------------------------------ MODULE BufView ------------------------------
(***************************************************************************)
(* The buffers of an array as they are shown to somebody else.             *)
(*                                                                         *)
(* An array (of ArrayView), or a slice of it, is shown as one run of       *)
(* memory per list level and per ordinate.  Whatever is needed to read the *)
(* rows of the slice has to be in there, and nothing outside of the        *)
(* buffers of the array.  The machine below computes, level by level, the  *)
(* lengths of the runs from what a view knows: the offset and the length   *)
(* of each level and the offset after its last element.                    *)
(***************************************************************************)
EXTENDS ArrayView
VARIABLES lvl, last, shown
bvars == <<cs, i, evs, reads, lvl, last, shown>>
Lv == Levels(cs.kind)
\* the array that is shown: level 1 sliced
AOff(l) == cs.o[l] + IF l = 1 THEN cs.ro ELSE 0
ALen(l) == IF l = 1 THEN cs.rl ELSE LenAt(cs, l)
BInit == Init /\ lvl = 1 /\ last = -1 /\ shown = <<>>
\* an empty level says nothing: its offsets may be a single zero
Level == /\ lvl <= Lv
         /\ LET n == IF ALen(lvl) = 0 THEN 0 ELSE AOff(lvl) + (IF lvl = 1 THEN ALen(1) ELSE last) + 1 IN
            /\ shown' = Append(shown, n)
            /\ last' = IF ALen(lvl) = 0 THEN 0 ELSE OffsBuf(cs, lvl)[AOff(lvl) + ALen(lvl) + 1]
         /\ lvl' = lvl + 1 /\ UNCHANGED <<cs, i, evs, reads>>
\* ordinates: counted from the element the child starts with
Coords == /\ lvl = Lv + 1
          /\ LET n == AOff(lvl) + (IF Lv = 0 THEN ALen(1) ELSE last) IN
             shown' = shown \o (IF cs.inter THEN << n * NOrd(cs) >> ELSE [j \in 1..NOrd(cs) |-> n])
          /\ lvl' = lvl + 1 /\ UNCHANGED <<cs, i, evs, reads, last>>
BNext == Level \/ Coords
BSpec == BInit /\ [][BNext]_bvars
Shown == lvl = Lv + 2
(* ------------------------------ properties ----------------------------- *)
Touched == UNION {RReads(1, cs.o[1] + e) : e \in cs.ro..(cs.ro + cs.rl - 1)}
MaxOf(X) == IF X = {} THEN -1 ELSE CHOOSE x \in X : \A y \in X : y <= x
NeedO(l) == 1 + MaxOf({r[3] : r \in {r \in Touched : r[1] = "o" /\ r[2] = l}})
\* relative to the first element of the run
Base(j) == IF cs.inter THEN cs.c[1] ELSE COff(cs, j)
NeedX(j) == 1 + MaxOf({r[3] - Base(j) : r \in {r \in Touched : r[1] = "x" /\ (cs.inter \/ r[2] = j)}})
NRuns == IF cs.inter THEN 1 ELSE NOrd(cs)
Need == [l \in 1..Lv |-> NeedO(l)] \o [j \in 1..NRuns |-> IF NeedX(j) < 0 THEN 0 ELSE NeedX(j)]
Room == [l \in 1..Lv |-> Len(OffsBuf(cs, l))] \o [j \in 1..NRuns |-> OrdLen(cs, j) - Base(j)]
Complete == Shown => \A k \in DOMAIN shown : shown[k] >= Need[k]
Contained == Shown => \A k \in DOMAIN shown : shown[k] <= Room[k]
\* no run is longer than it has to be in an array that is not sliced and has nothing behind its rows
Tight == (Shown /\ cs.ro + cs.rl = Len(cs.items) /\ (\A l \in DOMAIN cs.t : cs.t[l] = 0) /\ \A l \in 1..Lv : LenAt(cs, l) > 0 /\ ALen(l) > 0) => \A l \in 1..Lv : shown[l] = Room[l]
BEmitted == (Emit /\ Shown) =>
   PrintT(<<"CASE", ToJson([kind |-> cs.kind, d |-> cs.d, inter |-> cs.inter, o |-> cs.o, c |-> [j \in 1..NOrd(cs) |-> COff(cs, j)],
       valid |-> [j \in DOMAIN cs.items |-> IF cs.items[j].v THEN 1 ELSE 0],
       lens |-> [l \in 1..(Lv + 1) |-> LenAt(cs, l)], offs |-> [l \in 1..Lv |-> OffsBuf(cs, l)],
       ords |-> IF cs.inter THEN << [p \in 1..OrdLen(cs, 1) |-> Stored(cs, 1, p - 1)] >>
                ELSE [j \in 1..NOrd(cs) |-> [p \in 1..OrdLen(cs, j) |-> Stored(cs, j, p - 1)]],
       ro |-> cs.ro, rl |-> cs.rl, need |-> Need, room |-> Room])>>)
=============================================================================

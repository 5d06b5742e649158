------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The raw array builder and the life of every buffer it is handed.        *)
(*                                                                         *)
(* A builder has NB buffers: validity, one per offset level, and the data  *)
(* buffers.  Each can be filled in place (App) or replaced by a buffer the *)
(* caller owns (Own), any number of times.  Fin hands all buffers over to  *)
(* an array and leaves the builder as new.  The model tracks where every   *)
(* owned buffer lives; Free(id) must happen exactly once, exactly when the *)
(* last holder lets go.                                                    *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS Kind, Inter, MaxLen, Emit      \* Kind 1..6 native, 7 = WKB
NW == INSTANCE NatW

D == CASE Kind = 1 -> XY [] Kind = 2 -> XYZ [] Kind = 4 -> XYM [] Kind = 6 -> XYZM [] OTHER -> XY
OneOf(kind, d) == CASE kind \in {1, 7} -> Pt(d, 1) [] kind = 2 -> Ls(d, 2) [] kind = 3 -> Pg(d, <<1, 2>>)
                    [] kind = 4 -> MPs(d, <<1, 1>>) [] kind = 5 -> MLs(d, <<1, 1>>)
                    [] OTHER -> MGs(d, << <<1>>, <<1, 1>> >>)
\* two alternative contents (version 1 and 2), told apart by every buffer
ContentItems(v) == IF v = 1 THEN << << OneOf(Kind, D) >>, <<>>, << OneOf(Kind, D) >> >>
                   ELSE << << OneOf(Kind, D) >>, << OneOf(Kind, D) >>, << OneOf(Kind, D) >>, <<>> >>
Start(v) == IF v = 1 THEN 0 ELSE 100
Content(v) == IF v = 0 THEN [len |-> 0, offs |-> [i \in 1..NW!Levels(IF Kind = 7 THEN 1 ELSE Kind) |-> <<0>>], coords |-> <<>>, valid |-> <<>>, nulls |-> 0]
              ELSE NW!NatOf(ContentItems(v), Start(v), IF Kind = 7 THEN 1 ELSE Kind, FALSE)
NB == IF Kind = 7 THEN 3 ELSE 1 + NW!Levels(Kind) + (IF Inter THEN 1 ELSE NVals(D))

VARIABLES buf, arrs, freed, nid, alive, hist
vars == <<buf, arrs, freed, nid, alive, hist>>
Fresh == [i \in 1..NB |-> [v |-> 0, own |-> 0]]
Init == /\ buf = Fresh /\ arrs = <<>> /\ freed = {} /\ nid = 0 /\ alive = TRUE /\ hist = <<>>

Log(op, i, v, id, gone) == hist' = Append(hist, [op |-> op, i |-> i, v |-> v, id |-> id, freed |-> SetToSortSeq(gone, <)])
Ids(b) == {b[i].own : i \in 1..NB} \ {0}
\* buffers are replaced as wholes; the interesting order is which buffer when
Own(i, v) ==
  /\ alive /\ nid < 12 /\ nid' = nid + 1
  /\ buf' = [buf EXCEPT ![i] = [v |-> v, own |-> nid + 1]]
  /\ freed' = freed \cup ({buf[i].own} \ {0})
  /\ Log("own", i - 1, v, nid + 1, {buf[i].own} \ {0}) /\ UNCHANGED <<arrs, alive>>
OwnAll(v) ==
  /\ alive /\ nid + NB <= 12 /\ nid' = nid + NB
  /\ buf' = [i \in 1..NB |-> [v |-> v, own |-> nid + i]]
  /\ freed' = freed \cup Ids(buf) /\ Log("ownall", 0, v, nid + 1, Ids(buf)) /\ UNCHANGED <<arrs, alive>>
App(i, v) ==
  /\ alive /\ buf[i] = [v |-> 0, own |-> 0]
  /\ buf' = [buf EXCEPT ![i].v = v] /\ Log("app", i - 1, v, 0, {}) /\ UNCHANGED <<arrs, freed, nid, alive>>
AppAll(v) ==
  /\ alive /\ buf = Fresh
  /\ buf' = [i \in 1..NB |-> [v |-> v, own |-> 0]] /\ Log("appall", 0, v, 0, {}) /\ UNCHANGED <<arrs, freed, nid, alive>>
Consistent(b) == \E v \in 0..2 : (\A i \in 2..NB : b[i].v = v) /\ b[1].v \in {0, v}
VersionOf(b) == IF Consistent(b) THEN b[2].v ELSE -1
Fin ==
  /\ alive /\ Consistent(buf)
  /\ arrs' = Append(arrs, [v |-> buf[2].v, valid |-> buf[1].v # 0, own |-> Ids(buf), alive |-> TRUE])
  /\ buf' = Fresh /\ Log("fin", 0, buf[2].v, 0, {}) /\ UNCHANGED <<freed, nid, alive>>
\* mismatched buffers: the library may refuse or not; either way nothing may leak
BadFin ==
  /\ alive /\ ~Consistent(buf)
  /\ arrs' = Append(arrs, [v |-> -1, valid |-> FALSE, own |-> Ids(buf), alive |-> FALSE])
  /\ buf' = Fresh /\ alive' = FALSE /\ freed' = freed \cup Ids(buf)
  /\ Log("badfin", 0, 0, 0, Ids(buf)) /\ UNCHANGED nid
Rel(j) == /\ arrs[j].alive /\ arrs' = [arrs EXCEPT ![j].alive = FALSE]
          /\ freed' = freed \cup arrs[j].own /\ Log("rel", j, 0, 0, arrs[j].own) /\ UNCHANGED <<buf, nid, alive>>
Show(j) == /\ arrs[j].alive /\ hist # <<>> /\ Top(hist).op # "show"
           /\ Log("show", j, arrs[j].v, IF arrs[j].valid THEN 1 ELSE 0, {}) /\ UNCHANGED <<buf, arrs, freed, nid, alive>>
Reset == /\ alive /\ alive' = FALSE /\ buf' = Fresh /\ freed' = freed \cup Ids(buf)
         /\ Log("reset", 0, 0, 0, Ids(buf)) /\ UNCHANGED <<arrs, nid>>
\* mostly keep filling the version in progress; one transition starts a mismatch
CurV == LET vs == {buf[i].v : i \in 1..NB} \ {0} IN IF vs = {} THEN 1 + (Len(arrs) % 2) ELSE CHOOSE v \in vs : \A w \in vs : v <= w
Next == /\ Len(hist) < MaxLen
        /\ \/ \E i \in 1..NB : Own(i, CurV) \/ App(i, CurV)
           \/ Own(NB, 3 - CurV)
           \/ \E v \in 1..2 : OwnAll(v) \/ AppAll(v)
           \/ Fin \/ BadFin \/ Reset
           \/ \E j \in DOMAIN arrs : Rel(j) \/ Show(j)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Held == Ids(buf) \cup UNION {IF arrs[j].alive THEN arrs[j].own ELSE {} : j \in DOMAIN arrs}
ExactlyOne == /\ Held \cap freed = {}                         \* never freed while held
              /\ Held \cup freed = 1..nid                     \* never lost
DisjointOwners == \A j, k \in DOMAIN arrs : j # k => arrs[j].own \cap arrs[k].own = {}
FreshAfterFin == (hist # <<>> /\ Top(hist).op = "fin") => buf = Fresh
\* Freed-once: each id appears in exactly one freed list
FreedOnce == LET fs == Flat([i \in DOMAIN hist |-> hist[i].freed]) IN \A i, j \in DOMAIN fs : i # j => fs[i] # fs[j]
Abs == <<buf, arrs, freed, nid, alive, Len(hist)>>
Emitted == (Emit /\ Len(hist) = MaxLen) =>
   PrintT(<<"CASE", ToJson([hist |-> hist, rest |-> [buf |-> SetToSortSeq(Ids(buf), <),
             arrs |-> [j \in DOMAIN arrs |-> IF arrs[j].alive THEN SetToSortSeq(arrs[j].own, <) ELSE <<>>]],
             alive |-> alive, arralive |-> [j \in DOMAIN arrs |-> arrs[j].alive],
             content |-> [v \in 1..3 |-> Content(v - 1)], d |-> D])>>)
=============================================================================

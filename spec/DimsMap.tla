------------------------------ MODULE DimsMap ------------------------------
(* Coordinates of changing dimensions appended to one target (builder,       *)
(* coordinate view copy): ordinates travel by meaning, never by position.    *)
EXTENDS Geo, Json
CONSTANTS MaxBatches, Emit
VARIABLES target, inter, rows, batches, next
vars == <<target, inter, rows, batches, next>>

IndexOf(seq, x) == IF \E i \in DOMAIN seq : seq[i] = x THEN CHOOSE i \in DOMAIN seq : seq[i] = x ELSE 0
\* slot j of the target is filled from source slot Slot(s, d, j) (0: NaN)
Slot(s, d, j) == IndexOf(Axes(s), Axes(d)[j])
Row(i, s, d) == [j \in 1..NVals(d) |-> IF Slot(s, d, j) = 0 THEN 0 ELSE 10 * i + Axes(s)[Slot(s, d, j)]]   \* 0 stands for NaN

Init == target \in Dims /\ inter \in BOOLEAN /\ rows = <<>> /\ batches = <<>> /\ next = 1
AppendBatch(s, n, lay) ==
  /\ Len(batches) < MaxBatches
  /\ rows' = rows \o [i \in 1..n |-> Row(next + i - 1, s, target)]
  /\ batches' = Append(batches, [s |-> s, n |-> n, lay |-> lay, start |-> next])
  /\ next' = next + n /\ UNCHANGED <<target, inter>>
\* the first batch size varies more than later ones
Sizes == IF batches = <<>> THEN {0, 1, 2, 9} ELSE {1, 3}
Next == \E s \in Dims, n \in Sizes, lay \in 0..2 : (lay = (Len(batches) + s + target + n) % 3) /\ AppendBatch(s, n, lay)
Spec == Init /\ [][Next]_vars

AxisOf(v) == v % 10
Meaning == \A r \in DOMAIN rows, j \in 1..NVals(target) : rows[r][j] # 0 => AxisOf(rows[r][j]) = Axes(target)[j]
XYKept  == \A r \in DOMAIN rows : rows[r][1] = 10 * r + 1 /\ rows[r][2] = 10 * r + 2
\* an ordinate is NaN exactly when its axis is missing from the source
NaNExactly == \A b \in DOMAIN batches : \A i \in 1..batches[b].n : \A j \in 1..NVals(target) :
   (rows[batches[b].start + i - 1][j] = 0) <=> ~(\E k \in DOMAIN Axes(batches[b].s) : Axes(batches[b].s)[k] = Axes(target)[j])
Emitted == Emit => PrintT(<<"CASE", ToJson([target |-> target, inter |-> inter, rows |-> rows, batches |-> batches,
   map |-> [s \in 1..4 |-> [j \in 1..NVals(target) |-> Slot(s, target, j) - 1]]])>>)
=============================================================================

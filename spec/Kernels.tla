------------------------------- MODULE Kernels -------------------------------
(***************************************************************************)
(* Scalar kernels as state machines over batches.                          *)
(*                                                                         *)
(* A program is a sequence of pushes; each pushes a slice of a physical    *)
(* array and is processed row by row into a pending batch, which becomes   *)
(* an output batch at its end.  A row that cannot be read or converted     *)
(* fails the push: it has no output and the pending rows are discarded.    *)
(*                                                                         *)
(* Mapped: the concatenated outputs are the row-wise image of the accepted *)
(* input, whatever the batching, the slicing and the failures in between.  *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Shard, Shards, Programs, Emit
NW == INSTANCE NatW
VARIABLES sc, op, row, st, pend, acc, outs, log
vars == <<sc, op, row, st, pend, acc, outs, log>>

One(k, d) == CASE k = 1 -> Pt(d, 1) [] k = 2 -> Ls(d, 2) [] k = 3 -> Pg(d, <<1, 2>>) [] k = 4 -> MPs(d, <<1, 1>>)
               [] k = 5 -> MLs(d, <<1, 2>>) [] OTHER -> MGs(d, << <<1>>, <<2, 1>> >>)
Alt(k, d) == CASE k = 1 -> Pt(d, 1) [] k = 2 -> Ls(d, 1) [] k = 3 -> Pg(d, <<3>>) [] k = 4 -> MPs(d, <<1>>)
               [] k = 5 -> MLs(d, <<3>>) [] OTHER -> MGs(d, << <<1, 1, 1>> >>)
Item(k, d, c) == CASE c = 0 -> <<>> [] c = 1 -> << One(k, d) >> [] c = 2 -> << Alt(k, d) >>
                   [] c = 3 -> << IF k = 1 THEN Pt(d, 1) ELSE Empty(k, d) >>
                   [] OTHER -> << IF k = 1 THEN Ls(d, 2) ELSE Pg(d, <<1, 2>>) >>     \* 4: cannot be of kind k <= 2
Templates == << <<1>>, <<>>, <<0>>, <<1, 0, 2>>, <<0, 0, 1>>, <<2, 3, 1, 1>>, <<3>>, <<1, 2, 0, 0, 1, 2, 1, 0, 1>>, <<2, 2>>, <<1, 1, 0, 1, 3, 2, 2, 1, 1, 1, 0>> >>
Sources == <<"wkb", "wkt", "lwkb", "lwkt", "sep", "int">>
Kerns == <<"void", "format_wkt", "as_wkb", "as_wkt", "as_sep", "as_int", "box", "visit_void_agg">>
Serial(src) == src \in {"wkb", "wkt", "lwkb", "lwkt"}
H(p, j, k, d, s, n) == p * 31 + j * 17 + k * 5 + d * 3 + s * 11 + n * 7
Op(p, j, k, d, s, n) ==
  LET h == H(p, j, k, d, s, n)
      body == Templates[1 + (h % Len(Templates))]
      fails == (h \div 7) % 3 = 0 /\ body # <<>> /\ Serial(Sources[s]) /\ Kerns[n] # "void"
      pre == (h \div 3) % 3  post == (h \div 5) % 2
      at == 1 + (h % (IF body = <<>> THEN 1 ELSE Len(body)))
      unrep == fails /\ Kerns[n] \in {"as_sep", "as_int"} /\ k <= 2 /\ h % 2 = 0
  IN [codes |-> [i \in 1..pre |-> (h + i) % 4] \o [i \in DOMAIN body |-> IF unrep /\ i = at THEN 4 ELSE body[i]] \o [i \in 1..post |-> 1],
      o |-> pre, n |-> Len(body), bad |-> IF fails THEN at ELSE 0, damage |-> fails /\ ~unrep]
Init ==
  /\ \E p \in 1..Programs : \E k \in 1..6 : \E d \in Dims : \E s \in DOMAIN Sources : \E n \in DOMAIN Kerns :
       /\ (p * 7 + k * 3 + d + s * 5 + n) % Shards = Shard
       /\ sc = [k |-> k, d |-> d, src |-> Sources[s], kern |-> Kerns[n], prog |-> [j \in 1..(1 + ((p + k + n) % 4)) |-> Op(p, j, k, d, s, n)]]
  /\ op = 1 /\ row = 0 /\ st = "idle" /\ pend = <<>> /\ acc = <<>> /\ outs = <<>> /\ log = <<>>

\* coordinates are numbered through the whole program, unused rows of the arrays included
AllItems == Flat([j \in DOMAIN sc.prog |-> [i \in DOMAIN sc.prog[j].codes |-> Item(sc.k, sc.d, sc.prog[j].codes[i])]])
Before(j) == Sum([i \in 1..(j - 1) |-> Len(sc.prog[i].codes)])
ItemAt(j, i) == Item(sc.k, sc.d, sc.prog[j].codes[i])
StartAt(j, i) == ItemStart(AllItems, Before(j) + i)
Rows(j) == [i \in 1..sc.prog[j].n |-> <<ItemAt(j, sc.prog[j].o + i), StartAt(j, sc.prog[j].o + i)>>]

\* what the kernel makes of a row
F(r) == CASE sc.kern = "void" -> <<>>
          [] sc.kern = "box" -> IF r[1] = <<>> THEN <<"null">> ELSE IF NCoords(r[1][1]) = 0 THEN <<"empty">> ELSE <<"box", r[2], r[2] + NCoords(r[1][1]) - 1>>
          [] OTHER -> r

Begin == /\ st = "idle" /\ op <= Len(sc.prog) /\ st' = "rows" /\ row' = 0 /\ UNCHANGED <<sc, op, pend, acc, outs, log>>
Row == /\ st = "rows" /\ row < sc.prog[op].n /\ sc.prog[op].bad # row + 1
       /\ pend' = Append(pend, F(Rows(op)[row + 1])) /\ row' = row + 1 /\ UNCHANGED <<sc, op, st, acc, outs, log>>
Fail == /\ st = "rows" /\ row < sc.prog[op].n /\ sc.prog[op].bad = row + 1
        /\ pend' = <<>> /\ st' = "idle" /\ op' = op + 1 /\ log' = Append(log, "error") /\ UNCHANGED <<sc, row, acc, outs>>
End == /\ st = "rows" /\ row = sc.prog[op].n
       /\ outs' = Append(outs, pend) /\ pend' = <<>> /\ acc' = acc \o Rows(op) /\ st' = "idle" /\ op' = op + 1
       /\ log' = Append(log, "ok") /\ UNCHANGED <<sc, row>>
Next == Begin \/ Row \/ Fail \/ End
Spec == Init /\ [][Next]_vars

Mapped == Flat(outs) = [i \in DOMAIN acc |-> F(acc[i])]
NoResidue == st = "idle" => pend = <<>>
Accepted == SelectSeq([j \in 1..(op - 1) |-> j], LAMBDA j : log[j] = "ok")
SameLength == \A b \in DOMAIN outs : Len(outs[b]) = sc.prog[Accepted[b]].n

Toks(j, i) == LET it == ItemAt(j, i) IN
  IF it = <<>> THEN <<>> ELSE IF sc.src \in {"wkb", "lwkb"} THEN WkbOf(it[1], StartAt(j, i)) ELSE WktOf(it[1], StartAt(j, i), FALSE)
OutToks(j) == [i \in 1..sc.prog[j].n |-> LET r == Rows(j)[i] IN
  IF r[1] = <<>> THEN <<>> ELSE IF sc.kern = "as_wkb" THEN MergeRuns(WkbOf(r[1][1], r[2])) ELSE MergeText(WktOf(r[1][1], r[2], TRUE))]
Predicted(j) ==
  LET its == [i \in 1..sc.prog[j].n |-> Rows(j)[i][1]] IN
  CASE sc.kern \in {"format_wkt", "as_wkb", "as_wkt"} -> [len |-> Len(its), nulls |-> NW!NullsOf(its), valid |-> NW!ValidOf(its), items |-> OutToks(j)]
    [] sc.kern \in {"as_sep", "as_int"} -> NW!NatOf(its, IF its = <<>> THEN 0 ELSE Rows(j)[1][2], sc.k, TRUE)
    [] OTHER -> [len |-> Len(its), rows |-> [i \in DOMAIN its |-> F(Rows(j)[i])]]
Done == st = "idle" /\ op > Len(sc.prog)
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson(
  [k |-> sc.k, d |-> sc.d, src |-> sc.src, kern |-> sc.kern, log |-> log,
   ops |-> [j \in DOMAIN sc.prog |-> [o |-> sc.prog[j].o, n |-> sc.prog[j].n, bad |-> sc.prog[j].bad, damage |-> sc.prog[j].damage,
      toks |-> IF Serial(sc.src) THEN [i \in DOMAIN sc.prog[j].codes |-> Toks(j, i)] ELSE <<>>,
      evs |-> IF Serial(sc.src) THEN <<>> ELSE Flat([i \in DOMAIN sc.prog[j].codes |-> ItemEv(ItemAt(j, i), StartAt(j, i), 0)]),
      out |-> IF log[j] = "ok" THEN Predicted(j) ELSE <<>>]]])>>)
=============================================================================

------------------------------ MODULE NodeList ------------------------------
(***************************************************************************)
(* Literal node lists (C11).  A list is a sequence of <<type, size>>; size *)
(* 9 stands for 2^32 - 1.  Walk consumes one geometry with an explicit     *)
(* stack of parts still expected; the list is well-formed iff the walk     *)
(* ends exactly behind the last node.  Declaratively: a list is            *)
(* well-formed iff it is the pre-order listing of a tree.                  *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS MaxLen, Shard, Shards, Turn, Emit
VARIABLES nl, d, i, need, evs, verdict
vars == <<nl, d, i, need, evs, verdict>>
H == 9
Leaf(t) == t \in {PT, LS}
Alphabet == {<<PT, 0>>, <<PT, 1>>, <<LS, 0>>, <<LS, 2>>, <<PG, 0>>, <<PG, 1>>, <<PG, 2>>, <<PG, H>>, <<GC, 0>>, <<GC, 1>>, <<GC, 2>>, <<GC, 3>>, <<GC, H>>,
             <<ML, 1>>, <<ML, 2>>, <<MG, 1>>, <<MP, 2>>, <<0, 0>>, <<8, 1>>}
Code(x) == x[1] * 10 + x[2]
Cnt == Sum([j \in 1..(i - 1) |-> IF Leaf(nl[j][1]) THEN nl[j][2] ELSE 0])
Pending(s) == s # <<>>
\* need: stack of [t, left]; left parts still expected
RECURSIVE Close(_, _)
Close(st, ev) == IF Len(st) > 1 /\ st[Len(st)].left = 0 THEN Close(SubSeq(st, 1, Len(st) - 1), Append(ev, <<"ge">>)) ELSE <<st, ev>>
Init == /\ \E n \in 0..MaxLen : nl \in [1..n -> Alphabet]
        /\ (Sum([j \in DOMAIN nl |-> j * Code(nl[j])]) + Turn) % Shards = Shard
        /\ d \in {1 + (Sum([j \in DOMAIN nl |-> Code(nl[j])]) % 4)}
        /\ i = 1 /\ need = << [t |-> 0, left |-> 1] >> /\ evs = << <<"fs">> >> /\ verdict = "run"
TopN == need[Len(need)]
Walk ==
  /\ verdict = "run"
  /\ LET left == {k \in DOMAIN need : need[k].left > 0} IN
     IF left = {} THEN verdict' = (IF i = Len(nl) + 1 THEN "ok" ELSE "no") /\ evs' = Append(evs, <<"fe">>) /\ UNCHANGED <<nl, d, i, need>>
     ELSE IF i > Len(nl) THEN verdict' = "no" /\ UNCHANGED <<nl, d, i, need, evs>>
     ELSE LET x == nl[i]
              n0 == [need EXCEPT ![Len(need)].left = @ - 1]
              in == TopN.t
          IN
          IF in = PG /\ x[1] # LS THEN verdict' = "any" /\ UNCHANGED <<nl, d, i, need, evs>>
          ELSE IF in = PG THEN
             /\ i' = i + 1
             /\ LET c == Close(n0, evs \o << <<"rs">> >> \o (IF x[2] = 0 THEN <<>> ELSE << C(d, Cnt, x[2]) >>) \o << <<"re">> >>)
                IN need' = c[1] /\ evs' = c[2]
             /\ UNCHANGED <<nl, d, verdict>>
          ELSE IF x[1] \notin 1..7 THEN verdict' = "no" /\ UNCHANGED <<nl, d, i, need, evs>>
          ELSE IF Leaf(x[1]) THEN
             /\ i' = i + 1
             /\ LET c == Close(n0, evs \o << <<"gs", x[1], d>> >> \o (IF x[2] = 0 THEN <<>> ELSE << C(d, Cnt, x[2]) >>) \o << <<"ge">> >>)
                IN need' = c[1] /\ evs' = c[2]
             /\ UNCHANGED <<nl, d, verdict>>
          ELSE
             /\ i' = i + 1
             /\ LET c == Close(Append(n0, [t |-> x[1], left |-> IF x[2] = H THEN 1000 ELSE x[2]]), Append(evs, <<"gs", x[1], d>>))
                IN need' = c[1] /\ evs' = c[2]
             /\ UNCHANGED <<nl, d, verdict>>
\* the root frame has type 0 and is never closed by an event
Spec == Init /\ [][Walk]_vars
Done == verdict # "run"
\* declarative: pre-order listings
RECURSIVE Listing(_)
Size(x) == IF Leaf(x[1]) THEN 0 ELSE IF x[2] = H THEN 1000 ELSE x[2]
Listing(s) == \* s is the listing of exactly one tree
  /\ s # <<>> /\ s[1][1] \in 1..7
  /\ \/ Size(s[1]) = 0 /\ Len(s) = 1
     \/ Size(s[1]) > 0 /\ Size(s[1]) < Len(s)
        /\ \E cuts \in SUBSET (2..Len(s)) :
             /\ Cardinality(cuts) = Size(s[1]) /\ 2 \in cuts
             /\ \A c \in cuts : LET nx == {e \in cuts : e > c}
                                    hi == IF nx = {} THEN Len(s) ELSE (CHOOSE e \in nx : \A f \in nx : e <= f) - 1
                                IN Listing(SubSeq(s, c, hi))
RingsOk == \A j \in DOMAIN nl : nl[j][1] = PG /\ nl[j][2] \in 1..8 => \A k \in (j + 1)..(j + nl[j][2]) : k <= Len(nl) => nl[k][1] = LS
Declared == Done /\ verdict # "any" => ((verdict = "ok") <=> (Listing(nl) /\ RingsOk))
Balanced == Done /\ verdict = "ok" => \A b \in {<<"gs", "ge">>, <<"rs", "re">>, <<"fs", "fe">>} :
   Len(SelectSeq(evs, LAMBDA e : e[1] = b[1])) = Len(SelectSeq(evs, LAMBDA e : e[1] = b[2]))
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson([d |-> d, nl |-> nl, ok |-> verdict, evs |-> evs])>>)
=============================================================================

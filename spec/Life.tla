-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* C21: the life of every object the library creates and of everything it  *)
(* is handed.                                                              *)
(*                                                                         *)
(* Slots hold one object each: writers, readers, kernels, functions,       *)
(* geometries, builders, schemas, in C and in C++.  Resources are arrays   *)
(* and caller-owned buffers; each has exactly one owner (the caller, the   *)
(* object in a slot, or the array it became part of) until it is released, *)
(* which happens once, when its owner lets go.                             *)
(*                                                                         *)
(* Any call may be hit by an allocation failure.  The call then reports an *)
(* error or does what it should; its object may only be released           *)
(* afterwards, and nothing else changes.                                   *)
(*                                                                         *)
(* freed: resources whose release must have run.  may: resources whose     *)
(* release may have run already (a reader that was given another array).   *)
(* perhaps: resources that only exist if a failed call got that far.       *)
(*                                                                         *)
(* Suites: "walk"   (simulation) several objects, faults in between        *)
(*         "fault"  every short history of one kind, ended by a fault      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Suite, Group, NSlots, Steps, Faults, Emit
VARIABLES st, hist, ended
vars == <<st, hist, ended>>

(* -------------------------------- kinds -------------------------------- *)
Encs == {1, 100001, 100003}
Writers == ({"arr", "xwr"} \X Encs) \cup {<<"wkb", 100001>>, <<"wkt", 100003>>, <<"nat", 1>>}
ReadEncs == {1, 100001, 100002, 100003, 100004, 100005, 100006}
Readers == {"rd", "rds", "xrd"} \X ReadEncs
Kerns == {"k:void", "k:void_agg", "k:visit_void_agg", "k:format_wkt", "k:as_geoarrow", "k:unique_geometry_types_agg", "k:box", "k:box_agg"} \X {0}
Builders == {"bld", "blds", "xbld"} \X {1}
Schemas == ({"ext", "schema", "xschema"} \X {1, 10006, 100001, 100004}) \cup ({"xschema"} \X {1000001, 1100003})
Groups == [writers |-> Writers, readers |-> Readers, kernels |-> Kerns, functions |-> {<<"u:void", 0>>}, geoms |-> {<<"geom", 0>>},
           builders |-> Builders, schemas |-> Schemas,
           few |-> {<<"xrd", 1>>, <<"rd", 100001>>, <<"xrd", 100003>>, <<"arr", 1>>, <<"xwr", 100003>>, <<"bld", 1>>, <<"xbld", 1>>, <<"wkb", 100001>>,
                    <<"k:as_geoarrow", 0>>, <<"k:format_wkt", 0>>, <<"k:box", 0>>, <<"k:box_agg", 0>>, <<"xrd", 100002>>, <<"u:void", 0>>}]
Kinds == Groups[Group]
\* what cannot be made: nothing is created, nothing is lost
Refused == [writers |-> ({"arr", "xwr"} \X {100002, 100004, 100005, 100006}) \cup {<<"nat", 100001>>},
            readers |-> {}, kernels |-> {<<"k:nope", 0>>}, functions |-> {<<"u:nope", 0>>}, geoms |-> {},
            builders |-> {"bld", "blds", "xbld"} \X {100005, 100006}, schemas |-> {}, few |-> {<<"arr", 100002>>, <<"xwr", 100006>>, <<"k:nope", 0>>, <<"xbld", 100005>>}]
IsW(o) == <<o.k, o.e>> \in Writers   IsR(o) == <<o.k, o.e>> \in Readers   IsK(o) == o.k \in {x[1] : x \in Kerns}
IsB(o) == o.k \in {"bld", "blds", "xbld"}   IsU(o) == o.k = "u:void"   IsG(o) == o.k = "geom"   IsS(o) == o.k \in {"ext", "schema"}
Agg(o) == o.k \in {"k:void_agg", "k:visit_void_agg", "k:unique_geometry_types_agg", "k:box_agg"}
AnyIn(o) == o.k \in {"k:void", "k:void_agg"}

None == [k |-> "none", e |-> 0, s |-> "none", rows |-> <<>>, held |-> 0, own |-> {}, in |-> 0, out |-> 0]
Init == st = [obj |-> [i \in 1..NSlots |-> None], res |-> <<>>, freed |-> {}, may |-> {}, perhaps |-> {}, nr |-> 1, nf |-> 0]
        /\ hist = <<>> /\ ended = FALSE

(* ------------------------------ resources ------------------------------ *)
\* owner: 0 the caller, s > 0 the object in slot s, -1 nobody, -2 part of an array
Arr(e, rows, parts) == [t |-> "arr", e |-> e, rows |-> rows, owner |-> 0, parts |-> parts]
Buf(s) == [t |-> "buf", e |-> 0, rows |-> <<>>, owner |-> s, parts |-> {}]
Give(x, a) == [x EXCEPT !.res = Append(@, a)]
New1(x) == Len(x.res) + 1
Whole(x, a) == {a} \cup x.res[a].parts
Let(x, ids) == LET all == UNION {Whole(x, i) : i \in ids}
               IN [x EXCEPT !.freed = @ \cup all, !.res = [i \in DOMAIN @ |-> IF i \in all THEN [@[i] EXCEPT !.owner = -1] ELSE @[i]]]
Mine(x) == {i \in DOMAIN x.res : x.res[i].t = "arr" /\ x.res[i].owner = 0}
Alive(x, i, s) == i # 0 /\ x.res[i].owner \in {0, s}
Contents(x) == LET r == x.nr IN << <<>>, <<r>>, <<r, 0, r + 1>>, <<0, r, r + 1, r + 2, 0, r + 3, r + 4, r + 5, r + 6, 0, r + 7>> >>
Bad(rows) == \E i \in DOMAIN rows : rows[i] = -1
NonNull(rows) == SelectSeq(rows, LAMBDA r : r > 0)
Least(rows) == LET q == NonNull(rows) IN IF q = <<>> THEN -2 ELSE CHOOSE m \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : m <= q[i]

(* ------------------------------ operations ----------------------------- *)
\* op: the call, in: its arguments, r: "ok" / "err" / "any", rows: what it shows, x: the state after it
Op(op, s, a, r, rows, x) == [op |-> op, nm |-> "", s |-> s, a |-> a, r |-> r, rows |-> rows, x |-> x]
Put(x, s, o) == [x EXCEPT !.obj[s] = o]
Torn(o) == [o EXCEPT !.s = "torn", !.held = 0]
OpsNew(x, s) == IF x.obj[s].s # "none" THEN {} ELSE
  {[Op("lnew", s, <<kd[2]>>, "ok", <<>>, Put(x, s, [None EXCEPT !.k = kd[1], !.e = kd[2], !.s = "live"])) EXCEPT !.nm = kd[1]] : kd \in Kinds}
  \cup {[Op("lnew", s, <<kd[2]>>, "err", <<>>, x) EXCEPT !.nm = kd[1]] : kd \in Refused[Group]}
OpsW(x, s) == LET o == x.obj[s] IN IF ~IsW(o) \/ o.s # "live" THEN {} ELSE
  (IF Len(o.rows) >= 5 THEN {} ELSE
     {Op("lfeed", s, <<x.nr>>, "ok", <<>>, [Put(x, s, [o EXCEPT !.rows = Append(@, x.nr)]) EXCEPT !.nr = @ + 1]),
      Op("lfeed", s, <<0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.rows = Append(@, 0)]))})
  \cup {Op("lopen", s, <<>>, "ok", <<>>, x)}
  \cup {Op("lfin", s, <<New1(x), o.e>>, "ok", o.rows, Put(Give(x, Arr(o.e, o.rows, {})), s, [o EXCEPT !.rows = <<>>]))}
\* a reader that owns may let go of what it does not use any more
Unused(x, s, o) == [x EXCEPT !.obj[s] = o, !.may = @ \cup UNION {Whole(x, i) : i \in o.own \ {o.held}}]
OpsR(x, s) == LET o == x.obj[s] IN IF ~IsR(o) \/ o.s # "live" THEN {} ELSE
  {Op("lset", s, <<a, 0>>, "ok", <<>>, Unused(x, s, [o EXCEPT !.held = a])) : a \in {i \in Mine(x) : x.res[i].e = o.e}}
  \cup (IF o.k # "xrd" THEN {} ELSE
     {Op("lset", s, <<a, 1>>, "ok", <<>>, Unused([x EXCEPT !.res[a].owner = s], s, [o EXCEPT !.held = a, !.own = @ \cup {a}]))
        : a \in {i \in Mine(x) : x.res[i].e = o.e}})
  \* an array of another layout: refused, whoever owns it now releases it
  \cup (IF o.e \in {100001, 100003, 100005, 100006} THEN {} ELSE
     {Op("lset", s, <<a, 0>>, "err", <<>>, Unused(x, s, [o EXCEPT !.held = 0])) : a \in {i \in Mine(x) : x.res[i].e = -1}}
     \cup (IF o.k # "xrd" THEN {} ELSE
        {Op("lset", s, <<a, 1>>, "err", <<>>, Unused([x EXCEPT !.res[a].owner = s], s, [o EXCEPT !.held = 0, !.own = @ \cup {a}])) : a \in {i \in Mine(x) : x.res[i].e = -1}}))
  \cup (IF ~Alive(x, o.held, s) THEN {} ELSE
     {Op("lvisit", s, <<>>, IF Bad(x.res[o.held].rows) THEN "err" ELSE "ok", x.res[o.held].rows, x)})
KOut(o, rows) == CASE o.k = "k:void" -> Arr(0, rows, {}) [] o.k = "k:format_wkt" -> Arr(100003, rows, {}) [] o.k = "k:as_geoarrow" -> Arr(o.out, rows, {})
                   [] o.k = "k:box" -> Arr(990, rows, {}) [] o.k = "k:box_agg" -> Arr(990, <<Least(rows)>>, {})
                   [] o.k = "k:unique_geometry_types_agg" -> Arr(991, IF NonNull(rows) = <<>> THEN <<>> ELSE <<1>>, {}) [] OTHER -> Arr(0, <<0>>, {})
KInputs == {1, 100001, 100002, 100003, 100006}
OpsK(x, s) == LET o == x.obj[s] IN IF ~IsK(o) THEN {} ELSE
  (IF o.s \notin {"live", "started"} THEN {} ELSE
     LET again == o.s = "started"
         post(e, out) == Put(x, s, IF again THEN Torn(o) ELSE [o EXCEPT !.s = "started", !.in = e, !.out = out])
         r == IF again THEN "any" ELSE "ok"
     IN IF o.k = "k:as_geoarrow" THEN {Op("lstart", s, <<e, out>>, r, <<>>, post(e, out)) : e \in KInputs, out \in Encs}
        ELSE {Op("lstart", s, <<e, 0>>, r, <<>>, post(e, 0)) : e \in KInputs})
  \* refused: from here on only its release is certain
  \cup (IF o.s # "live" \/ AnyIn(o) THEN {} ELSE
     {Op("lstart", s, <<-1, 0>>, "err", <<>>, Put(x, s, [o EXCEPT !.s = "refused"]))}
     \cup (IF o.k # "k:as_geoarrow" THEN {} ELSE {Op("lstart", s, <<e, out>>, "err", <<>>, Put(x, s, [o EXCEPT !.s = "refused"])) : e \in {1, 100001, 100003}, out \in {0, 100002}}))
  \cup (IF o.s # "refused" THEN {} ELSE {Op("lstart", s, <<e, 1>>, "any", <<>>, Put(x, s, Torn(o))) : e \in {1, 100001, 100003}})
  \cup (IF o.s # "started" THEN {} ELSE
     {LET rows == x.res[a].rows
          bad == Bad(rows) /\ ~AnyIn(o)
      IN IF bad THEN Op("lpush", s, <<a, IF Agg(o) THEN 0 ELSE New1(x), 0>>, "err", <<>>, [Put(x, s, IF Agg(o) THEN Torn(o) ELSE o) EXCEPT !.res = IF Agg(o) THEN @ ELSE Append(@, [Arr(0, <<>>, {}) EXCEPT !.owner = -1]), !.perhaps = IF Agg(o) THEN @ ELSE @ \cup {New1(x)}])
         ELSE IF Agg(o) THEN Op("lpush", s, <<a, 0, 0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.rows = @ \o rows]))
         ELSE Op("lpush", s, <<a, New1(x), KOut(o, rows).e>>, "ok", KOut(o, rows).rows, Give(x, KOut(o, rows)))
        : a \in {i \in Mine(x) : x.res[i].e = o.in \/ (AnyIn(o) /\ x.res[i].e > 0)}}
     \cup {IF Agg(o) THEN Op("lfin", s, <<New1(x), KOut(o, o.rows).e>>, "ok", KOut(o, o.rows).rows, Put(Give(x, KOut(o, o.rows)), s, [o EXCEPT !.s = "finished"]))
           ELSE Op("lfin", s, <<0, -1>>, "ok", <<>>, Put(x, s, [o EXCEPT !.s = "finished"]))})
OpsU(x, s) == LET o == x.obj[s] IN IF ~IsU(o) THEN {} ELSE
  CASE o.s = "live" -> {Op("ludf", s, <<0, 0, 0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.s = "made"]))}
    [] o.s = "made" -> {Op("ludf", s, <<1, 0, 0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.s = "inited"])), Op("ludf", s, <<3, 0, 0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.s = "live"]))}
    [] o.s = "inited" -> {Op("ludf", s, <<2, n, New1(x)>>, "ok", [i \in 1..n |-> 0], Give(x, Arr(0, [i \in 1..n |-> 0], {}))) : n \in {0, 3}}
                         \cup {Op("ludf", s, <<3, 0, 0>>, "ok", <<>>, Put(x, s, [o EXCEPT !.s = "live"]))}
    [] OTHER -> {}
OpsG(x, s) == LET o == x.obj[s] IN IF ~IsG(o) \/ o.s # "live" THEN {} ELSE
  {Op("lnode", s, <<1>>, "ok", <<>>, x), Op("lnode", s, <<-2>>, "ok", <<>>, x), Op("lbuild", s, <<>>, "ok", <<>>, x)}
  \cup {Op("lcopy", s, <<i>>, "ok", <<>>, x) : i \in {j \in 1..NSlots : j # s /\ IsG(x.obj[j]) /\ x.obj[j].s = "live"}}
OpsB(x, s) == LET o == x.obj[s] IN IF ~IsB(o) \/ o.s # "live" THEN {} ELSE
  UNION {LET rows == Contents(x)[c]
         IN {Op("lfill", s, <<1, New1(x)>> \o rows, "ok", <<>>,
                LET y == Let(x, o.own)  n == Len(y.res)
                IN [Put(y, s, [o EXCEPT !.rows = rows, !.own = {n + 1, n + 2, n + 3}]) EXCEPT !.res = @ \o (LET b == [Buf(s) EXCEPT !.t = IF rows = <<>> THEN "nil" ELSE @] IN <<b, b, b>>), !.nr = @ + Len(rows),
                                   \* nothing refers to memory of size zero: it may go at once
                                   !.may = IF rows = <<>> THEN @ \cup {n + 1, n + 2, n + 3} ELSE @])}
            \cup IF o.rows # <<>> \/ o.own # {} \/ c = 1 THEN {} ELSE {Op("lfill", s, <<0, 0>> \o rows, "ok", <<>>, [Put(x, s, [o EXCEPT !.rows = rows]) EXCEPT !.nr = @ + Len(rows)])}
        : c \in {1, 2, 3, 4}}
  \cup {Op("lfin", s, <<New1(x), 1>>, "ok", o.rows,
           LET y == Give(x, Arr(1, o.rows, o.own))
           IN Put([y EXCEPT !.res = [i \in DOMAIN @ |-> IF i \in o.own THEN [@[i] EXCEPT !.owner = -2] ELSE @[i]]], s, [o EXCEPT !.rows = <<>>, !.own = {}]))}
OpsS(x, s) == LET o == x.obj[s] IN IF ~IsS(o) \/ o.s # "live" THEN {} ELSE
  {Op("lmeta", s, <<w>>, IF o.k = "ext" THEN "ok" ELSE "any", <<>>, x) : w \in 0..1}
OpsReset(x, s) == LET o == x.obj[s] IN IF o.s = "none" \/ (IsU(o) /\ o.s \in {"made", "inited"}) THEN {} ELSE
  {Op("lreset", s, <<>>, "ok", <<>>, Put(Let(x, o.own), s, None))}
\* arrays of the caller: made, shown, released
Wanted(x) == UNION {LET o == x.obj[s] IN IF IsR(o) /\ o.s = "live" THEN {o.e} ELSE IF IsK(o) /\ o.s = "started" THEN {IF AnyIn(o) THEN 1 ELSE o.in} ELSE {} : s \in 1..NSlots}
OpsA(x) ==
  (IF Cardinality(Mine(x)) > 3 THEN {} ELSE
     {Op("lmk", 0, <<New1(x), e>> \o Contents(x)[c], "ok", <<>>, [Give(x, Arr(e, Contents(x)[c], {})) EXCEPT !.nr = @ + Len(Contents(x)[c])]) : e \in Wanted(x), c \in IF Suite = "fault" THEN {3} ELSE 1..4}
     \cup {Op("lmk", 0, <<New1(x), e, x.nr, 0, -1, x.nr>>, "ok", <<>>, [Give(x, Arr(e, <<x.nr, 0, -1, x.nr>>, {})) EXCEPT !.nr = @ + 1]) : e \in Wanted(x) \ {1}}
     \cup (IF \E s \in 1..NSlots : IsR(x.obj[s]) /\ x.obj[s].s = "live" /\ x.obj[s].e \notin {100001, 100003, 100005, 100006}
           THEN {Op("lmk", 0, <<New1(x), -1>>, "ok", <<>>, Give(x, Arr(-1, <<>>, {})))} ELSE {}))
  \cup {Op("ldump", 0, <<a>>, "ok", <<>>, x) : a \in {i \in Mine(x) : x.res[i].e >= 0 /\ ~Bad(x.res[i].rows) /\ (hist = <<>> \/ Last(hist).op # "ldump")}}
  \cup {Op("lrel", 0, <<a>>, "ok", <<>>, Let(x, {a})) : a \in Mine(x)}
OnObj(x) == UNION {OpsNew(x, s) \cup OpsW(x, s) \cup OpsR(x, s) \cup OpsK(x, s) \cup OpsU(x, s) \cup OpsG(x, s) \cup OpsB(x, s) \cup OpsS(x, s) : s \in 1..NSlots}
Ops(x) == OnObj(x) \cup UNION {OpsReset(x, s) : s \in 1..NSlots} \cup OpsA(x)

(* ------------------------- allocation failures ------------------------- *)
\* whatever the call would have made may exist for a moment; its object can only be released
Hit(x, op) ==
  LET o == x.obj[op.s]
      new == (Len(x.res) + 1)..Len(op.x.res)
      o2 == IF op.op = "lnew" THEN [op.x.obj[op.s] EXCEPT !.s = "torn"] ELSE Torn(o)
      took == {i \in DOMAIN x.res : x.res[i].owner = 0 /\ op.x.res[i].owner = op.s}
  IN [x EXCEPT !.obj[op.s] = IF op.op = "lnew" /\ op.r = "err" THEN o ELSE [o2 EXCEPT !.own = o.own \cup took],
               !.res = [i \in DOMAIN op.x.res |-> IF i \in new THEN [op.x.res[i] EXCEPT !.owner = -1, !.parts = {}] ELSE IF i \in took THEN [x.res[i] EXCEPT !.owner = op.s] ELSE x.res[i]],
               !.perhaps = @ \cup new, !.may = @ \cup new \cup UNION {Whole(x, i) : i \in o.own \cup took}, !.nf = @ + 1, !.nr = op.x.nr]
Faulty(op) == op.op \in {"lnew", "lfeed", "lopen", "lfin", "lset", "lvisit", "lstart", "lpush", "lnode", "lcopy", "lbuild", "lfill", "lmeta"} \/ (op.op = "ludf" /\ op.a[1] # 3)

(* ------------------------------ histories ------------------------------ *)
Log(op, k, x) == hist' = Append(hist, [op |-> op.op, nm |-> op.nm, s |-> op.s, a |-> op.a, r |-> op.r, rows |-> op.rows, k |-> k,
                                        e |-> IF op.op = "ldump" THEN st.res[op.a[1]].e ELSE 0,
                                        vis |-> IF op.op = "ldump" THEN st.res[op.a[1]].rows ELSE op.rows,
                                        must |-> SetToSortSeq(x.freed \ x.perhaps, <), may |-> SetToSortSeq(x.may \cup x.perhaps, <)])
K1 == 1 + ((Len(hist) * 5 + st.nr * 3 + Len(st.res)) % 5)
Plain == /\ ~ended /\ Len(hist) < Steps
         /\ \E op \in Ops(st) : st' = op.x /\ Log(op, 0, op.x) /\ UNCHANGED ended
Fault == /\ ~ended /\ st.nf < 2 /\ Suite = "walk" /\ Len(hist) < Steps
         /\ \E op \in {o \in OnObj(st) : Faulty(o)} : LET x == Hit(st, op) IN st' = x /\ Log(op, K1, x) /\ UNCHANGED ended
LastFault == /\ ~ended /\ Suite = "fault"
             /\ \E op \in {o \in OnObj(st) : Faulty(o)} : \E k \in Faults : LET x == Hit(st, op) IN st' = x /\ Log(op, k, x) /\ ended' = TRUE
\* everything is released, objects first
RECURSIVE ResetAll(_, _)
ResetAll(x, s) == IF s > NSlots THEN x ELSE ResetAll(IF x.obj[s].s = "none" THEN x ELSE Put(Let(x, x.obj[s].own), s, None), s + 1)
End == /\ ~ended /\ Suite = "walk" /\ Len(hist) = Steps /\ ended' = TRUE /\ UNCHANGED <<st, hist>>
Next == Plain \/ Fault \/ LastFault \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Objs == {s \in 1..NSlots : st.obj[s].s # "none"}
\* what is not released has exactly one owner that still exists
Owned == \A i \in DOMAIN st.res \ st.perhaps :
           IF i \in st.freed THEN st.res[i].owner = -1
           ELSE \/ st.res[i].owner = 0
                \/ st.res[i].owner \in Objs /\ i \in st.obj[st.res[i].owner].own
                \/ st.res[i].owner = -2 /\ Cardinality({a \in DOMAIN st.res : i \in st.res[a].parts}) = 1
OneOwner == \A s, t \in Objs : s # t => st.obj[s].own \cap st.obj[t].own = {}
\* nothing is released while it can still be read
NotRead == \A s \in Objs : st.obj[s].held # 0 /\ Alive(st, st.obj[s].held, s) => st.obj[s].held \notin st.freed \cup st.may
NotMine == \A i \in Mine(st) : {p \in Whole(st, i) : st.res[p].t # "nil"} \cap (st.freed \cup st.may) = {}
Kept == [][st.freed \subseteq st'.freed]_vars
\* releasing everything leaves nothing behind
Clean == LET x == Let(ResetAll(st, 1), Mine(st)) IN DOMAIN x.res \ x.perhaps \subseteq x.freed
Emitted == (Emit /\ ended) => PrintT(<<"CASE", ToJson([hist |-> hist, live |-> SetToSortSeq(Objs, <), n |-> Len(st.res),
             mine |-> [i \in 1..Len(SetToSortSeq(Mine(st), <)) |-> LET a == SetToSortSeq(Mine(st), <)[i] IN <<a, st.res[a].e, st.res[a].rows>>],
             udf |-> SetToSortSeq({s \in Objs : st.obj[s].s \in {"made", "inited"}}, <), perhaps |-> SetToSortSeq(st.perhaps, <)])>>)
=============================================================================

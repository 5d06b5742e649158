-------------------------------- MODULE WkbW --------------------------------
(* The WKB writer as an event machine: a stack of open parts, each with the *)
(* position of its count field and the running count, patched when closed.  *)
EXTENDS Geo

WkbInit == [out |-> <<>>, offs |-> <<>>, valid |-> <<>>, nulls |-> 0, isnull |-> FALSE,
            stk |-> <<>>, n0 |-> 0]

WkbBump(w) == IF w.stk = <<>> THEN w ELSE [w EXCEPT !.stk[Len(w.stk)].n = @ + 1]
WkbPatch(w, fr) == IF fr.pos = 0 THEN w ELSE [w EXCEPT !.out[fr.pos] = <<"u", fr.n>>]

WkbStep(w, e) ==
  CASE e[1] = "fs"  -> [w EXCEPT !.offs = Append(@, Len(w.out)), !.isnull = FALSE, !.stk = <<>>]
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "gs"  ->
         LET w1 == WkbBump(w)
             hd == << <<"b", 1>>, <<"u", e[2] + (e[3] - 1) * 1000>> >>
             o2 == w1.out \o hd \o (IF e[2] = PT THEN <<>> ELSE << <<"u", 0>> >>)
         IN [w1 EXCEPT !.out = o2,
               !.stk = Append(@, [t |-> e[2], d |-> e[3], n |-> 0,
                                  pos |-> IF e[2] = PT THEN 0 ELSE Len(o2)])]
    [] e[1] = "rs"  ->
         LET w1 == WkbBump(w)
             o2 == Append(w1.out, <<"u", 0>>)
         IN [w1 EXCEPT !.out = o2,
               !.stk = Append(@, [t |-> 0, d |-> 0, n |-> 0, pos |-> Len(o2)])]
    [] e[1] = "c"   -> LET w1 == [w EXCEPT !.stk[Len(w.stk)].n = @ + e[4]]
                       IN IF e[4] = 0 THEN w1 ELSE [w1 EXCEPT !.out = Append(@, e)]
    [] e[1] \in {"re", "ge"} ->
         LET fr == Top(w.stk)
             w1 == WkbPatch(w, fr)
             w2 == IF fr.t = PT /\ fr.n = 0
                   THEN [w1 EXCEPT !.out = Append(@, <<"nan", NVals(fr.d)>>)] ELSE w1
         IN [w2 EXCEPT !.stk = Pop(@)]
    [] e[1] = "fe"  -> [w EXCEPT !.valid = Append(@, IF w.isnull THEN 0 ELSE 1),
                                 !.nulls = @ + (IF w.isnull THEN 1 ELSE 0)]

\* element i of the array built so far
WkbItem(w, i) ==
  SubSeq(w.out, w.offs[i] + 1, IF i = Len(w.offs) THEN Len(w.out) ELSE w.offs[i + 1])
\* what a consumer of the finished array sees
WkbArray(w) == [len |-> Len(w.offs), nulls |-> w.nulls, valid |-> w.valid,
                items |-> [i \in DOMAIN w.offs |-> MergeRuns(WkbItem(w, i))]]
=============================================================================

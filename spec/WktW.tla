-------------------------------- MODULE WktW --------------------------------
(* The WKT writer as an event machine: a stack of open parts with the number *)
(* of parts written so far, which alone decides "(", ", ", ")" and EMPTY.    *)
EXTENDS Geo

WktInit(flat) == [out |-> <<>>, offs |-> <<>>, valid |-> <<>>, nulls |-> 0, isnull |-> FALSE,
                  stk |-> <<>>, flat |-> flat]
Put(w, str) == [w EXCEPT !.out = Append(@, S(str))]
FlatHere(w) == /\ w.flat /\ Len(w.stk) > 1 /\ w.stk[Len(w.stk) - 1].t = MP
Open(w) == IF w.stk = <<>> THEN w
           ELSE LET w1 == IF Top(w.stk).n > 0 THEN Put(w, ", ") ELSE Put(w, "(")
                IN [w1 EXCEPT !.stk[Len(w.stk)].n = @ + 1]

WktStep(w, e) ==
  CASE e[1] = "fs"  -> [w EXCEPT !.offs = Append(@, Len(w.out)), !.isnull = FALSE, !.stk = <<>>]
    [] e[1] = "nul" -> [w EXCEPT !.isnull = TRUE]
    [] e[1] = "gs"  ->
         LET tagged == w.stk = <<>> \/ Top(w.stk).t = GC
             w1 == Open(w)
             w2 == IF tagged THEN Put(w1, TypeWord(e[2]) \o DimWord(e[3]) \o " ") ELSE w1
         IN [w2 EXCEPT !.stk = Append(@, [t |-> e[2], n |-> 0])]
    [] e[1] = "rs"  -> [Open(w) EXCEPT !.stk = Append(@, [t |-> 0, n |-> 0])]
    [] e[1] = "c"   ->
         IF e[4] = 0 THEN w
         ELSE LET w1 == IF Top(w.stk).n > 0 THEN Put(w, ", ")
                        ELSE IF FlatHere(w) THEN w ELSE Put(w, "(")
              IN [w1 EXCEPT !.out = Append(@, e), !.stk[Len(w.stk)].n = @ + e[4]]
    [] e[1] \in {"re", "ge"} ->
         LET w1 == IF Top(w.stk).n = 0 THEN Put(w, "EMPTY")
                   ELSE IF e[1] = "ge" /\ FlatHere(w) THEN w ELSE Put(w, ")")
         IN [w1 EXCEPT !.stk = Pop(@)]
    [] e[1] = "fe"  -> [w EXCEPT !.valid = Append(@, IF w.isnull THEN 0 ELSE 1),
                                 !.nulls = @ + (IF w.isnull THEN 1 ELSE 0)]

WktItem(w, i) ==
  SubSeq(w.out, w.offs[i] + 1, IF i = Len(w.offs) THEN Len(w.out) ELSE w.offs[i + 1])
\* chunk boundaries are invisible in the text: "(c0, c1)" whichever way it was delivered
JoinChunks(toks) ==
  FoldLeft(LAMBDA a, t :
     IF t[1] = "c" /\ Len(a) >= 2 /\ Top(a) = S(", ") /\ a[Len(a) - 1][1] = "c"
        /\ a[Len(a) - 1][2] = t[2] /\ a[Len(a) - 1][3] + a[Len(a) - 1][4] = t[3]
     THEN [Pop(a) EXCEPT ![Len(a) - 1] = <<"c", t[2], @[3], @[4] + t[4]>>]
     ELSE Append(a, t), <<>>, toks)
Canon(toks) == MergeText(JoinChunks(toks))
WktArray(w) == [len |-> Len(w.offs), nulls |-> w.nulls, valid |-> w.valid,
                items |-> [i \in DOMAIN w.offs |-> Canon(WktItem(w, i))]]
=============================================================================

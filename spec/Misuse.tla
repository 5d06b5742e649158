------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* C13: visitor calls in any order.                                        *)
(*                                                                         *)
(* A session sends an arbitrary sequence of callbacks to a writer (or to a *)
(* geometry under construction) whatever each of them answers.  A monitor  *)
(* (the protocol automaton of Geo) follows along: a feature whose calls    *)
(* were all legal and whose geometry the target can hold is "sure" to be   *)
(* accepted, everything else is left to the target.  What must hold in any *)
(* case: the array finished afterwards has exactly the accepted features,  *)
(* is structurally valid, the sure ones are exact, and a proper feature    *)
(* sent next is stored exactly.                                            *)
(*                                                                         *)
(* Suites: "short"  every sequence of up to MaxLen calls after each start  *)
(*         "runs"   a^i b^j c^k for blocks a, b, c and counts around limits*)
(*         "edits"  one or two edits of proper streams                     *)
(*         "walk"   (simulation) long sequences, mostly legal              *)
(* Target 0 WKB, 10 / 11 WKT, 1..6 native, 20 geometry.                    *)
(***************************************************************************)
EXTENDS Trees, Json
CONSTANTS Target, Suite, MaxLen, Shard, Shards, Emit
VARIABLES toks, mon, sure, pre
vars == <<toks, mon, sure, pre>>
Native == Target \in 1..6

(* ------------------------------- calls --------------------------------- *)
Gs(t, d) == <<"gs", t, d>>
Plain == { <<"fs">>, <<"fe">>, <<"nul">>, <<"rs">>, <<"re">>, <<"ge">> }
Starts == {Gs(t, XY) : t \in {1, 2, 3, 5, 7}} \cup (IF Native THEN {Gs(Target, XY)} ELSE {Gs(4, XY)})
Odd == {Gs(0, XY), Gs(9, XYZ), Gs(2, XYZM), Gs(1, IF Target = 20 THEN 0 ELSE 5), Gs(6, XYZ)}
Coords(i) == {C(XY, 10 * i, 1), C(XY, 10 * i, 2), C(XYZ, 10 * i, 1)}
Calls(i) == Plain \cup Starts \cup Odd \cup Coords(i)
Leads == << <<>>, << <<"fs">> >>, << <<"fs">>, Gs(7, XY) >>, << <<"fs">>, Gs(3, XY), <<"rs">> >>, << <<"fs">>, Gs(6, XY), Gs(3, XY) >>,
               << <<"fs">>, Gs(IF Native THEN Target ELSE 4, XY) >>, << <<"fs">>, Gs(1, XY), C(XY, 900, 1) >> >>

(* ------------------------------ monitor -------------------------------- *)
\* the automaton, [off] once a call was not legal; [at] where the feature started
MonInit == [p |-> ProtoInit, off |-> TRUE, at |-> 0, d |-> 0, depth |-> 0, types |-> <<>>]
Legal(m, e) == ~m.off /\ ProtoEnabled(m.p, ProtoEv(e))
\* a feature may begin again at any feat_start, whatever went before
MonStep(m, e, i) ==
  IF e[1] = "fs" THEN [MonInit EXCEPT !.p = ProtoStep(ProtoInit, e), !.off = FALSE, !.at = i]
  ELSE IF ~Legal(m, e) THEN [m EXCEPT !.off = TRUE]
  ELSE LET q == ProtoStep(m.p, ProtoEv(e))
       IN [m EXCEPT !.p = q, !.depth = IF Len(q.stk) > @ THEN Len(q.stk) ELSE @,
                    !.types = IF e[1] = "gs" /\ @ = <<>> THEN <<e[2], e[3]>> ELSE IF e[1] = "gs" /\ @[2] # e[3] THEN <<@[1], 0>> ELSE @]
Holds(m) == m.depth <= 20 /\ (m.types # <<>> => m.types[2] # 0)
            /\ (Native => m.types = <<>> \/ m.types[1] = Target) /\ (Target = 20 => m.types # <<>>)
\* the positions of sure feat_ends, with where the feature started
SureStep(s, m, e, i) == IF e[1] = "fe" /\ Legal(m, e) /\ Holds(m) THEN Append(s, <<m.at, i>>) ELSE s
RECURSIVE Feed(_, _, _, _)
Feed(st, es, i, n) == IF i > Len(es) THEN st
  ELSE Feed(<<MonStep(st[1], es[i], n + i), SureStep(st[2], st[1], es[i], n + i)>>, es, i + 1, n)

(* ------------------------------- suites -------------------------------- *)
Rep(b, n) == Flat([i \in 1..n |-> b])
Blocks == << <<Gs(7, XY)>>, <<Gs(3, XY)>>, << <<"rs">> >>, <<Gs(3, XY), <<"rs">> >>, << <<"ge">> >>, << <<"re">> >>, << <<"re">>, <<"ge">> >>,
             << Gs(1, XY), C(XY, 100, 1), <<"ge">> >>, << C(XY, 200, 2) >>, << <<"fs">> >>, << <<"fe">> >>, << <<"fs">>, Gs(7, XY) >>, << Gs(IF Native THEN Target ELSE 6, XY) >>,
             << <<"rs">>, C(XY, 300, 1), <<"re">> >>, << <<"nul">> >>, << Gs(2, XYZ), C(XYZ, 400, 3) >> >>
Counts == {1, 2, 30, 31, 32, 33, 34, 70}
Few == {1, 3, 33}
Bases == LET T(g) == << <<"fs">> >> \o Ev(g, 0, 0) \o << <<"fe">> >>
         IN IF Native THEN << T(CASE Target = 1 -> Pt(XY, 1) [] Target = 2 -> Ls(XY, 3) [] Target = 3 -> Pg(XY, <<2, 1>>) [] Target = 4 -> MPs(XY, <<1, 1>>)
                                  [] Target = 5 -> MLs(XY, <<2, 1>>) [] OTHER -> MGs(XY, << <<2>>, <<1, 1>> >>)),
                              << <<"fs">>, <<"nul">>, <<"fe">>, <<"fs">> >> \o Ev(Empty(Target, XY), 0, 0) \o << <<"fe">> >> >>
            ELSE << T(Coll(GC, XY, << Pg(XY, <<2, 1>>), MPs(XY, <<1, 0>>), Pt(XY, 1) >>)), T(MGs(XYZ, << <<2>>, <<1, 1>> >>)),
                    << <<"fs">>, <<"nul">>, <<"fe">> >> \o T(Ls(XYZM, 2)) >>
Edit(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in DOMAIN s}                        \* drop
   \cup {SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)) : i \in DOMAIN s}                                   \* repeat
   \cup {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..(Len(s) - 1)}                        \* swap
   \cup {[s EXCEPT ![i] = e] : i \in DOMAIN s, e \in {<<"fs">>, <<"fe">>, <<"ge">>, <<"rs">>, <<"re">>, <<"nul">>, Gs(7, XY), Gs(2, XYZ), C(XYZ, 70, 2)}}  \* replace
   \cup {SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), e \in {<<"nul">>, <<"re">>, Gs(3, XY), C(XY, 80, 1), C(XYZM, 90, 1), Gs(8, XY)}}   \* insert
Edit1 == UNION {Edit(Bases[i]) : i \in DOMAIN Bases}
\* suite "mix": a part of every exhaustive suite in one run
On(x) == Suite = x \/ (Suite = "mix" /\ x # "walk")
Sh(x) == IF Suite # "mix" THEN Shards ELSE Shards * (CASE x = "short" -> 4 [] x = "runs" -> 3 [] x = "runs3" -> 8 [] x = "edits" -> 1 [] OTHER -> 8)
Mine(x, h) == h % Sh(x) = Shard
Pick(x, es) == LET q == SetToSeq(es) IN {q[i] : i \in {j \in DOMAIN q : Mine(x, j)}}
Begin(s, n) == toks = s /\ pre = n /\ LET r == Feed(<<MonInit, <<>>>>, s, 1, 0) IN mon = r[1] /\ sure = r[2]
NB == Len(Blocks)
Init ==
  \/ On("short") /\ \E f \in DOMAIN Leads : Begin(Leads[f], Len(Leads[f]))
  \/ On("walk") /\ Begin(<< <<"fs">> >>, 0)
  \/ On("runs") /\ \E a \in 1..NB, b \in 1..NB, i \in Counts, j \in Counts, f \in {0, 1}, e \in {0, 1} :
       /\ Mine("runs", a * 5 + b * 3 + i * 7 + j + f * 2 + e)
       /\ Begin(Rep(<< <<"fs">> >>, f) \o Rep(Blocks[a], i) \o Rep(Blocks[b], j) \o Rep(<< <<"fe">> >>, e), -1)
  \/ On("runs3") /\ \E a \in 1..NB, b \in 1..NB, c \in 1..NB, i \in Few, j \in Few, k \in Few :
       /\ Mine("runs3", a * 5 + b * 3 + c * 11 + i * 7 + j + k * 13)
       /\ Begin(<< <<"fs">> >> \o Rep(Blocks[a], i) \o Rep(Blocks[b], j) \o Rep(Blocks[c], k), -1)
  \/ On("edits") /\ \E s \in Pick("edits", Edit1) : Begin(s, -1)
  \/ On("edits2") /\ \E x \in Pick("edits2", Edit1) : \E s \in Edit(x) : Begin(s, -1)
Send(e) == /\ toks' = Append(toks, e) /\ mon' = MonStep(mon, e, Len(toks) + 1) /\ sure' = SureStep(sure, mon, e, Len(toks) + 1) /\ UNCHANGED pre
Hash2 == IF Len(toks) < pre + 2 THEN 0
         ELSE LET k(e) == (CASE e[1] = "gs" -> 3 + e[2] * 2 + e[3] [] e[1] = "c" -> 23 + e[2] + e[4] [] e[1] = "fs" -> 31 [] e[1] = "fe" -> 37 [] e[1] = "nul" -> 41 [] e[1] = "rs" -> 43 [] e[1] = "re" -> 47 [] OTHER -> 53)
              IN (k(toks[pre + 1]) * 7 + k(toks[pre + 2]) * 3 + pre * 5) % Sh("short")
Next ==
  \/ /\ On("short") /\ pre >= 0 /\ Len(toks) < pre + MaxLen /\ (Len(toks) = pre + 2 => Hash2 = Shard)
     /\ \E e \in Calls(Len(toks) + 1) : Send(e)
  \/ /\ Suite = "walk" /\ Len(toks) < MaxLen
     /\ \E e \in Calls(Len(toks) + 1) : Send(e) /\ (mon'.off => \E j \in (Len(toks) - 7)..Len(toks) : j <= 0 \/ j % 9 = 0)
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties ------------------------------ *)
\* every sure feature is a proper stream of its own
SureProper == \A k \in DOMAIN sure : LET s == SubSeq(toks, sure[k][1], sure[k][2]) IN
   /\ s[1] = <<"fs">> /\ s[Len(s)] = <<"fe">>
   /\ FoldLeft(LAMBDA p, e : IF p.phase # "bad" /\ ProtoEnabled(p, ProtoEv(e)) THEN ProtoStep(p, ProtoEv(e)) ELSE [phase |-> "bad", stk |-> <<>>], ProtoInit, s).phase = "done"
SureOrdered == \A k \in 1..(Len(sure) - 1) : sure[k][2] < sure[k + 1][1]
\* any position is a point of recovery: a proper feature sent there is sure
Recover == LET s == << <<"fs">> >> \o Ev(Pt(XY, 1), 0, 0) \o << <<"fe">> >> r == Feed(<<mon, sure>>, s, 1, Len(toks))
           IN Target \in {0, 1, 10, 11, 20} => Len(r[2]) = Len(sure) + 1
Ready == CASE On("short") /\ pre >= 0 -> Len(toks) >= pre + (IF MaxLen > 2 THEN 3 ELSE 1) [] Suite = "walk" -> Len(toks) = MaxLen [] OTHER -> TRUE
Emitted == (Emit /\ Ready) => PrintT(<<"CASE", ToJson([toks |-> toks, sure |-> sure])>>)
=============================================================================

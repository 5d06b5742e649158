------------------------------- MODULE WktRead -------------------------------
(***************************************************************************)
(* Reading well-known text, character by character.                        *)
(*                                                                         *)
(* A scenario is a text: the text of a tree under a whitespace policy, or  *)
(* such a text damaged by one edit of a character or a lexeme.  The parser *)
(* is a pushdown automaton over lexemes (one step consumes at most one)    *)
(* that emits visitor events; Derivable is an independent declarative      *)
(* grammar.  "@" stands for a NUL byte and "#" for another control byte.   *)
(* Nesting beyond DepthSure may be refused or accepted ("any").            *)
(***************************************************************************)
EXTENDS Geo, Json, NumText
CONSTANTS Suite, Shard, Shards, DepthSure, Emit
\* form: spellings of parts seen in the current multipoint; a mixture of both is left open
VARIABLES cs, p, goals, depth, evs, phase, form
vars == <<cs, p, goals, depth, evs, phase, form>>

(* ------------------------------- printing ------------------------------ *)
\* number text of ordinate value v: plain integers and other spellings of numbers
Num(v, st) == CASE st = 0 -> ToString(v)
   [] st = 1 -> <<ToString(v), "-" \o ToString(v), ToString(v) \o ".5", "." \o ToString(v), ToString(v) \o ".",
                  ToString(v) \o "e2", "-" \o ToString(v) \o ".25E-1", ToString(v) \o "E+3", "0", "-0", "1e0">>[1 + (v % 11)]
   [] OTHER -> "-" \o ToString(v) \o ".125e1"
\* lexemes of a tree; empty sequences of a container are printed as EMPTY
Dw(d) == <<"", "Z", "M", "ZM">>[d]
Numbers(d, s, n, st) ==
  Flat([i \in 1..n |-> (IF i = 1 THEN <<>> ELSE << "," >>) \o [a \in 1..NVals(d) |-> Num(10 * (s + i - 1) + Axes(d)[a], st)]])
Paren(d, s, n, st) == IF n = 0 THEN << "EMPTY" >> ELSE << "(" >> \o Numbers(d, s, n, st) \o << ")" >>
Commas(parts) == Flat([i \in DOMAIN parts |-> IF i = 1 THEN parts[i] ELSE << "," >> \o parts[i]])
RECURSIVE Lx(_, _, _, _)
RECURSIVE LxBody(_, _, _, _)
Lx(g, s, flat, st) == << TypeWord(g.t) >> \o (IF g.d = 1 THEN <<>> ELSE << Dw(g.d) >>) \o LxBody(g, s, flat, st)
LxBody(g, s, flat, st) ==
  CASE g.t \in {PT, LS} -> Paren(g.d, s, g.n, st)
    [] g.t = PG -> IF g.r = <<>> THEN << "EMPTY" >>
                   ELSE << "(" >> \o Commas([i \in DOMAIN g.r |-> Paren(g.d, RingStart(g, s, i), g.r[i], st)]) \o << ")" >>
    [] OTHER -> IF g.k = <<>> THEN << "EMPTY" >>
                ELSE << "(" >> \o Commas([i \in DOMAIN g.k |->
                       LET k == KidStart(g, s, i) IN
                       IF g.t = GC THEN Lx(g.k[i], k, flat, st)
                       ELSE IF g.t = MP /\ flat /\ g.k[i].n > 0 THEN Numbers(g.d, k, 1, st)
                       ELSE LxBody(g.k[i], k, flat, st)]) \o << ")" >>
Punct == {"(", ")", ","}
Sp(j) == <<" ", "\n", "\t", "  ", " \r\n", "\t ">>[1 + (j % 6)]
\* whitespace between two lexemes: policy 0 canonical-like, 1 minimal, 2 everywhere, 3 mixed
Gap(a, b, ws, j) ==
  IF a \notin Punct /\ b \notin Punct THEN (IF ws < 2 THEN " " ELSE Sp(j + ws))
  ELSE CASE ws = 0 -> (IF a = "," \/ (a \notin Punct /\ b = "(") THEN " " ELSE "")
         [] ws = 1 -> ""
         [] ws = 2 -> Sp(j)
         [] OTHER  -> IF (j * ws) % 3 = 0 THEN Sp(j) ELSE ""
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Text(lx, ws) == (IF ws = 2 THEN " \n" ELSE "")
   \o Cat([j \in DOMAIN lx |-> (IF j = 1 THEN "" ELSE Gap(lx[j - 1], lx[j], ws, j)) \o lx[j]])
   \o (IF ws >= 2 THEN "\t \n" ELSE "")

(* ------------------------------ scenarios ------------------------------ *)
Small == UNION {{Pt(d, 0), Pt(d, 1), Ls(d, 0), Ls(d, 2), Pg(d, <<>>), Pg(d, <<2, 1>>), Pg(d, <<0>>), Pg(d, <<1, 0, 2>>), MPs(d, <<>>), MPs(d, <<1>>), MPs(d, <<1, 1>>),
                 MPs(d, <<0>>), MPs(d, <<1, 0>>), MPs(d, <<0, 1>>), MLs(d, <<2, 0, 1>>), MLs(d, <<0>>), Empty(ML, d), MGs(d, << <<1, 2>>, <<>>, <<2>> >>), MGs(d, << <<0>> >>), Empty(MG, d), Empty(GC, d),
                 Coll(GC, d, << Pt(d, 1), Ls(d, 2) >>), Coll(GC, d, << Coll(GC, d, << Pt(d, 1), Empty(LS, d) >>), Pg(d, <<1>>), MPs(d, <<1, 1>>) >>)} : d \in Dims}
         \cup {Coll(GC, d, << Pt(e, 1), MPs(f, <<1, 1>>), Ls(d, 1) >>) : d \in Dims, e \in Dims, f \in Dims}
Big == {Ls(d, n) : d \in Dims, n \in {63, 64, 65, 128, 129, 193}}
       \cup {Pg(d, <<n, m>>) : d \in {XY, XYM}, n \in {64, 65}, m \in {1, 129}}
       \cup {Coll(MP, d, [i \in 1..n |-> Pt(d, 1)]) : d \in {XYZ}, n \in {65, 130}}
       \cup {MLs(XYZM, <<n, 1, m>>) : n \in {0, 64, 65}, m \in {64, 130}}
       \cup {Coll(GC, XY, << Ls(XY, 65), Pt(XYZ, 1), Ls(XYM, 66) >>)}
RECURSIVE Tower(_, _, _)
Tower(m, d, g) == IF m = 0 THEN g ELSE Coll(GC, d, << Tower(m - 1, d, g) >>)
Towers == {Tower(m, XY, g) : m \in {1, 2, 7, 29, 30, 31}, g \in {Pt(XY, 1), MPs(XYZ, <<1, 1>>), Empty(GC, XY)}}
MutBase == << Pt(XY, 1), Pt(XYZ, 0), Ls(XY, 2), Ls(XYM, 1), Pg(XY, <<1, 1>>), Pg(XY, <<0, 1>>), MPs(XY, <<1, 1>>), MPs(XYZ, <<1, 0>>), MLs(XY, <<1, 1>>), MGs(XY, << <<1>>, <<1, 1>> >>),
              Coll(GC, XY, << Pt(XY, 1), Empty(LS, XYZ) >>), Coll(GC, XY, << Coll(GC, XY, << Pt(XYM, 1) >>) >>), Empty(GC, XYZM), Pt(XYZM, 1), Ls(XYZ, 0) >>
Alpha == {" ", ",", "(", ")", "1", "-", ".", "e", "E", "Z", "M", "@", "#", "x"}
\* sh: the text that is derived by the grammar (of a long scenario: with one part in place of k)
Plain(g, flat, st, ws) == LET t == Text(Lx(g, 0, flat, st), ws) IN [g |-> g, flat |-> flat, st |-> st, ws |-> ws, txt |-> t, sh |-> t, mut |-> FALSE]
\* lexemes that an edit puts in
Words == {"(", ")", ",", "EMPTY", "Z", "M", "ZM", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "7", "POINTZ", "CIRCLE", "-"}
WordsSeq == SetToSeq(Words)
AlphaSeq == SetToSeq(Alpha)
EditLx(lx, op, j, w) == CASE op = "del" -> SubSeq(lx, 1, j - 1) \o SubSeq(lx, j + 1, Len(lx))
   [] op = "dup" -> SubSeq(lx, 1, j) \o SubSeq(lx, j, Len(lx))
   [] op = "swap" -> IF j = Len(lx) THEN lx \o << lx[1] >> ELSE SubSeq(lx, 1, j - 1) \o << lx[j + 1], lx[j] >> \o SubSeq(lx, j + 2, Len(lx))
   [] op = "cut" -> SubSeq(lx, 1, j - 1)
   [] op = "rep" -> [lx EXCEPT ![j] = w]
   [] OTHER -> SubSeq(lx, 1, j) \o << w >> \o SubSeq(lx, j + 1, Len(lx))
EditCh(t, op, j, c) == CASE op = "del" -> SubSeq(t, 1, j - 1) \o SubSeq(t, j + 1, Len(t))
   [] op = "cut" -> SubSeq(t, 1, j - 1)
   [] op = "rep" -> SubSeq(t, 1, j - 1) \o c \o SubSeq(t, j + 1, Len(t))
   [] OTHER -> SubSeq(t, 1, j) \o c \o SubSeq(t, j + 1, Len(t))
Mut(t) == [g |-> Pt(XY, 0), flat |-> FALSE, st |-> 0, ws |-> 0, txt |-> t, sh |-> t, mut |-> TRUE]
BaseLx(b, flat) == Lx(MutBase[b], 0, flat, 1)
\* items of a list: ring, coordinate or part
Item(t, d) == CASE t \in {PT, LS, 0} -> << <<"V", d, 1, <<>>>> >>
   [] t = PG -> << <<"E", <<"rs">>>>, <<"B", 0, d>>, <<"E", <<"re">>>> >>
   [] t = GC -> << <<"T">> >>
   [] OTHER -> << <<"E", <<"gs", t - 3, d>>>>, <<"I", t, d>>, <<"E", <<"ge">>>> >>
(* --------------------- behind k parts of one sequence ------------------- *)
\* The state of the parser behind k well-formed parts of a sequence does not depend on what they were:
\* these scenarios start there, with an edit in what follows.  (Verdict still derives the whole text.)
CoordLx(i, d) == [a \in 1..NVals(d) |-> Num(10 * i + Axes(d)[a], 0)]
CoordTx(i, d) == FoldLeft(LAMBDA a, w : IF a = "" THEN w ELSE a \o " " \o w, "", CoordLx(i, d))
List(k, T(_)) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o T(i), "", [i \in 1..k |-> i])
Closing == << <<"L">>, <<"E", <<"ge">>>> >>
Vs(k, d) == [i \in 1..k |-> <<"v", CoordLx(i, d)>>]
Dtx(d) == IF d = 1 THEN " " ELSE " " \o Dw(d) \o " "
Ahead(c, d, k) ==
  LET Bare(i) == CoordTx(i, d)
      In(i) == "(" \o CoordTx(i, d) \o ")"
      One(i) == "POINT" \o Dtx(d) \o "(" \o CoordTx(i, d) \o ")"
      Sq(open, close) == Flat([i \in 1..k |-> open \o << <<"v", CoordLx(i, d)>> >> \o close])
      R(t, gs, es, dp, f) == [txt |-> t, goals |-> gs, evs |-> es, depth |-> dp, form |-> f]
  IN
  CASE c = "ls" -> R("LINESTRING" \o Dtx(d) \o "(" \o List(k, Bare), << <<"S", LS, d>> >> \o Closing, << <<"gs", LS, d>> >> \o Vs(k, d), 1, {})
    [] c = "pg" -> R("POLYGON" \o Dtx(d) \o "((" \o List(k, Bare), << <<"S", 0, d>>, <<"E", <<"re">>>>, <<"S", PG, d>> >> \o Closing, << <<"gs", PG, d>>, <<"rs">> >> \o Vs(k, d), 1, {})
    [] c = "pg2" -> R("POLYGON" \o Dtx(d) \o "(EMPTY, (" \o List(k, Bare), << <<"S", 0, d>>, <<"E", <<"re">>>>, <<"S", PG, d>> >> \o Closing,
                      << <<"gs", PG, d>>, <<"rs">>, <<"re">>, <<"rs">> >> \o Vs(k, d), 1, {})
    [] c = "ml" -> R("MULTILINESTRING" \o Dtx(d) \o "((" \o List(k, Bare), << <<"S", LS, d>>, <<"E", <<"ge">>>>, <<"S", ML, d>> >> \o Closing,
                     << <<"gs", ML, d>>, <<"gs", LS, d>> >> \o Vs(k, d), 1, {})
    [] c = "mg" -> R("MULTIPOLYGON" \o Dtx(d) \o "(((" \o List(k, Bare), << <<"S", 0, d>>, <<"E", <<"re">>>>, <<"S", PG, d>>, <<"E", <<"ge">>>>, <<"S", MG, d>> >> \o Closing,
                     << <<"gs", MG, d>>, <<"gs", PG, d>>, <<"rs">> >> \o Vs(k, d), 1, {})
    [] c = "gc" -> R("GEOMETRYCOLLECTION" \o Dtx(d) \o "(LINESTRING" \o Dtx(d) \o "(" \o List(k, Bare), << <<"S", LS, d>> >> \o Closing \o << <<"S", GC, d>> >> \o Closing,
                     << <<"gs", GC, d>>, <<"gs", LS, d>> >> \o Vs(k, d), 2, {})
    [] c = "mpb" -> R("MULTIPOINT" \o Dtx(d) \o "(" \o List(k, Bare), << <<"S", MP, d>> >> \o Closing, << <<"gs", MP, d>> >> \o Sq(<< <<"gs", PT, d>> >>, << <<"ge">> >>), 1, {"bare"})
    [] c = "mpp" -> R("MULTIPOINT" \o Dtx(d) \o "(" \o List(k, In), << <<"S", MP, d>> >> \o Closing, << <<"gs", MP, d>> >> \o Sq(<< <<"gs", PT, d>> >>, << <<"ge">> >>), 1, {"paren"})
    [] c = "pgr" -> R("POLYGON" \o Dtx(d) \o "(" \o List(k, In), << <<"S", PG, d>> >> \o Closing, << <<"gs", PG, d>> >> \o Sq(<< <<"rs">> >>, << <<"re">> >>), 1, {})
    [] c = "mlp" -> R("MULTILINESTRING" \o Dtx(d) \o "(" \o List(k, In), << <<"S", ML, d>> >> \o Closing, << <<"gs", ML, d>> >> \o Sq(<< <<"gs", LS, d>> >>, << <<"ge">> >>), 1, {})
    [] OTHER -> R("GEOMETRYCOLLECTION" \o Dtx(d) \o "(" \o List(k, One), << <<"S", GC, d>> >> \o Closing, << <<"gs", GC, d>> >> \o Sq(<< <<"gs", PT, d>> >>, << <<"ge">> >>), 1, {})
Contexts == << "ls", "pg", "pg2", "ml", "mg", "gc", "mpb", "mpp", "pgr", "mlp", "gcp" >>
\* the item that the comma before it calls for
NextItem(c, d) == CASE c \in {"ls", "gc", "ml"} -> Item(LS, d) [] c \in {"pg", "pg2", "mg"} -> Item(0, d) [] c \in {"mpb", "mpp"} -> Item(MP, d)
   [] c = "pgr" -> Item(PG, d) [] c = "mlp" -> Item(ML, d) [] OTHER -> Item(GC, d)
\* what follows: more of the sequence, then the end of the text
Behind(c, d, k) ==
  LET a == CoordLx(k + 1, d)  b == CoordLx(k + 2, d)
      In(x) == << "(" >> \o x \o << ")" >>
      One(x) == << "POINT" >> \o (IF d = 1 THEN <<>> ELSE << Dw(d) >>) \o In(x)
  IN CASE c = "ls" -> a \o << "," >> \o b \o << ")" >>
    [] c \in {"pg", "pg2", "ml"} -> a \o << ")", "," >> \o In(b) \o << ")" >>
    [] c = "mg" -> a \o << ")", "," >> \o In(b) \o << ")", ")" >>
    [] c = "gc" -> a \o << ")", "," >> \o One(b) \o << ")" >>
    [] c = "mpb" -> a \o << "," >> \o b \o << ")" >>
    [] c \in {"mpp", "pgr", "mlp"} -> In(a) \o << "," >> \o In(b) \o << ")" >>
    [] OTHER -> One(a) \o << "," >> \o One(b) \o << ")" >>
LongInit ==
  \E x \in DOMAIN Contexts, d \in Dims, k \in {1, 62, 63, 64, 126, 127, 128} :
    LET c == Contexts[x]
        h == Ahead(c, d, k)
        h1 == Ahead(c, d, 1)
        lx == Behind(c, d, k)
        tx == Text(lx, k % 2)
        At0(tail) == cs = [Mut(h.txt \o ", " \o tail) EXCEPT !.sh = h1.txt \o ", " \o tail]
    IN /\ p = Len(h.txt) + 3 /\ goals = NextItem(c, d) \o h.goals /\ evs = h.evs /\ depth = h.depth /\ form = h.form
       /\ \/ \E op \in {"del", "dup", "swap", "cut", "rep", "ins"}, j \in DOMAIN lx, w \in 1..Cardinality(Words) :
               /\ (op \in {"del", "dup", "swap", "cut"} => w = 1)
               /\ (x + d * 3 + k + j * 5 + w * 2 + Len(op)) % Shards = Shard
               /\ At0(Text(EditLx(lx, op, j, WordsSeq[w]), (k + j) % 2))
          \/ \E op \in {"del", "cut", "rep", "ins"}, j \in 1..Len(tx), w \in 1..Cardinality(Alpha) :
               /\ (op \in {"del", "cut"} => w = 1)
               /\ (x + d * 3 + k + j * 5 + w * 2 + Len(op)) % (2 * Shards) = Shard
               /\ At0(EditCh(tx, op, j, AlphaSeq[w]))
Init ==
  /\ phase = "run" /\ (Suite # "long" => p = 1 /\ goals = << <<"T">> >> /\ depth = 0 /\ evs = <<>> /\ form = {})
  /\ \/ Suite = "long" /\ LongInit
     \/ Suite = "valid" /\ \E g \in Small \cup Towers, flat \in BOOLEAN, ws \in 0..5 :
          /\ (g.t + g.d * 2 + Len(g.k) + Len(g.r) + ws + (IF flat THEN 1 ELSE 0)) % Shards = Shard
          /\ cs = Plain(g, flat, (g.t + g.d + ws + Len(g.k)) % 3, ws)
     \/ Suite = "big" /\ \E g \in Big, flat \in BOOLEAN, ws \in {1, 4} :
          /\ (g.t + g.n + ws + Sum(g.r)) % Shards = Shard
          /\ cs = Plain(g, flat, 0, ws)
     \/ Suite = "chars" /\ \E b \in DOMAIN MutBase, flat \in BOOLEAN, op \in {"del", "cut", "rep", "ins"} :
          LET t == Text(BaseLx(b, flat), (IF b % 3 = 0 THEN 3 ELSE b % 2)) IN
          \E j \in {x \in 1..Len(t) : (x + b) % Shards = Shard}, c \in Alpha :
            (op \in {"del", "cut"} => c = " ") /\ cs = Mut(EditCh(t, op, j, c))
     \/ Suite = "lexemes" /\ \E b \in DOMAIN MutBase, flat \in BOOLEAN, op \in {"del", "dup", "swap", "cut", "rep", "ins"} :
          LET lx == BaseLx(b, flat) IN
          \E j \in {x \in DOMAIN lx : (x + b) % Shards = Shard}, w \in Words :
            (op \in {"del", "dup", "swap", "cut"} => w = "(") /\ cs = Mut(Text(EditLx(lx, op, j, w), (b + j) % 2))
     \/ Suite = "nest" /\ \E m \in {32, 40, 100}, g \in {Pt(XY, 1), Empty(GC, XY)} : cs = Plain(Tower(m, XY, g), FALSE, 0, 0)

(* -------------------------------- lexer -------------------------------- *)
White == {" ", "\n", "\t", "\r"}
RECURSIVE SkipWs(_, _)
SkipWs(t, j) == IF j <= Len(t) /\ Ch(t, j) \in White THEN SkipWs(t, j + 1) ELSE j
RECURSIVE WordEnd(_, _)
WordEnd(t, j) == IF j > Len(t) \/ Ch(t, j) \in White \cup Punct THEN j ELSE WordEnd(t, j + 1)
\* the lexeme at or behind j and the position after it; "" at the end of the text
Lexeme(t, j) == LET q == SkipWs(t, j) IN
  IF q > Len(t) THEN <<"", q>>
  ELSE IF Ch(t, q) \in Punct THEN <<Ch(t, q), q + 1>>
  ELSE LET e == WordEnd(t, q) IN <<SubSeq(t, q, e - 1), e>>

Types == {"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"}
TypeOf(w) == CHOOSE t \in 1..7 : TypeWord(t) = w
DimOf(w) == CASE w = "Z" -> 2 [] w = "M" -> 3 [] w = "ZM" -> 4 [] OTHER -> 1

(* -------------------------------- parser ------------------------------- *)
\* goals (first = next): <<"T">> tagged geometry, <<"D",t>> dimension word, <<"B",t,d>> body of t,
\* <<"I",t,d>> one item of t's list, <<"S",t,d>> "," or ")", <<"V",d,k,acc>> k-th ordinate of a
\* coordinate, <<"X",sym>> this symbol, <<"E",event>> emit, <<"Q",d>> coordinates in parentheses or EMPTY
Here == Lexeme(cs.txt, p)
Rest == Tail(goals)
Become(gs, es, q) == /\ goals' = gs /\ evs' = evs \o es /\ p' = q /\ UNCHANGED <<cs, phase, depth>>
Refuse == phase' = "no" /\ UNCHANGED <<cs, p, goals, evs, depth>>
Step ==
  /\ phase = "run" /\ goals # <<>>
  /\ form' = CASE goals[1][1] = "D" /\ goals[1][2] = MP /\ "mixed" \notin form -> {}
               [] goals[1][1] = "I" /\ goals[1][2] = MP ->
                    LET f == IF Here[1] = "(" THEN form \cup {"paren"} ELSE IF Here[1] = "EMPTY" THEN form ELSE form \cup {"bare"}
                    IN IF {"paren", "bare"} \subseteq f THEN f \cup {"mixed"} ELSE f
               [] OTHER -> form
  /\ LET g == goals[1]  w == Here[1]  q == Here[2] IN
     CASE g[1] = "T" -> IF w \in Types THEN (IF depth >= DepthSure THEN phase' = "any" /\ UNCHANGED <<cs, p, goals, evs, depth>>
                                             ELSE /\ goals' = << <<"D", TypeOf(w)>> >> \o Rest /\ p' = q /\ depth' = depth + 1 /\ UNCHANGED <<cs, evs, phase>>)
                        ELSE Refuse
       [] g[1] = "D" -> LET d == DimOf(w) IN
                        /\ goals' = << <<"B", g[2], d>>, <<"L">>, <<"E", <<"ge">>>> >> \o Rest
                        /\ evs' = evs \o << <<"gs", g[2], d>> >> /\ p' = (IF d = 1 THEN p ELSE q) /\ UNCHANGED <<cs, phase, depth>>
       [] g[1] = "B" -> IF w = "EMPTY" THEN Become(Rest, <<>>, q)
                        ELSE IF w = "(" THEN Become(Item(g[2], g[3]) \o << <<"S", g[2], g[3]>> >> \o Rest, <<>>, q)
                        ELSE Refuse
       [] g[1] = "I" -> \* a part of a multi type: the inner list, or for points also a bare coordinate
                        IF g[2] = MP /\ w \notin {"(", "EMPTY"} THEN Become(<< <<"V", g[3], 1, <<>>>> >> \o Rest, <<>>, p)
                        ELSE Become(<< <<"B", g[2] - 3, g[3]>> >> \o Rest, <<>>, p)
       [] g[1] = "S" -> IF w = ")" THEN Become(Rest, <<>>, q)
                        ELSE IF w = "," /\ g[2] # PT THEN Become(Item(g[2], g[3]) \o << g >> \o Rest, <<>>, q)
                        ELSE Refuse
       [] g[1] = "V" -> IF w = "" \/ w \in Punct \/ ~IsNum(w) THEN Refuse
                        ELSE IF g[3] = NVals(g[2]) THEN Become(Rest, << <<"v", Append(g[4], w)>> >>, q)
                        ELSE Become(<< <<"V", g[2], g[3] + 1, Append(g[4], w)>> >> \o Rest, <<>>, q)
       [] g[1] = "L" -> /\ depth' = depth - 1 /\ goals' = Rest /\ UNCHANGED <<cs, p, evs, phase>>
       [] OTHER -> Become(Rest, << g[2] >>, p)
Finish == /\ phase = "run" /\ goals = <<>> /\ UNCHANGED <<cs, p, goals, evs, depth, form>>
          /\ phase' = IF Here[1] = "" THEN "ok" ELSE "no"
Spec == Init /\ [][Step \/ Finish]_vars

(* ------------------------- declarative grammar ------------------------- *)
RECURSIVE LexAll(_, _)
LexAll(t, j) == LET x == Lexeme(t, j) IN IF x[1] = "" THEN <<>> ELSE << x[1] >> \o LexAll(t, x[2])
At(lx, i) == IF i <= Len(lx) THEN lx[i] ELSE ""
\* each operator: the set of positions behind a phrase that starts at i
Sym(lx, i, w) == IF At(lx, i) = w THEN {i + 1} ELSE {}
CoordEnds(lx, i, d) == IF \A k \in 0..(NVals(d) - 1) : At(lx, i + k) # "" /\ At(lx, i + k) \notin Punct /\ IsNum(At(lx, i + k)) THEN {i + NVals(d)} ELSE {}
RECURSIVE TagEnds(_, _)
RECURSIVE BodyEnds(_, _, _, _)
RECURSIVE ListEnds(_, _, _, _)
ItemEnds(lx, i, t, d) == CASE t \in {PT, LS, 0} -> CoordEnds(lx, i, d)
   [] t = PG -> BodyEnds(lx, i, 0, d)
   [] t = MP -> BodyEnds(lx, i, PT, d) \cup CoordEnds(lx, i, d)
   [] t = GC -> TagEnds(lx, i)
   [] OTHER -> BodyEnds(lx, i, t - 3, d)
ListEnds(lx, i, t, d) == UNION {(IF At(lx, e) = "," /\ t # PT THEN ListEnds(lx, e + 1, t, d) ELSE {}) \cup {e} : e \in ItemEnds(lx, i, t, d)}
BodyEnds(lx, i, t, d) == Sym(lx, i, "EMPTY") \cup (IF At(lx, i) = "(" THEN UNION {Sym(lx, e, ")") : e \in ListEnds(lx, i + 1, t, d)} ELSE {})
TagEnds(lx, i) == IF At(lx, i) \notin Types THEN {}
                  ELSE LET t == TypeOf(At(lx, i)) IN
                       IF At(lx, i + 1) \in {"Z", "M", "ZM"} THEN BodyEnds(lx, i + 2, t, DimOf(At(lx, i + 1))) ELSE BodyEnds(lx, i + 1, t, 1)
Derivable == LET lx == LexAll(cs.sh, 1) IN (Len(lx) + 1) \in TagEnds(lx, 1)
(* ------------------------------ invariants ----------------------------- *)
Done == phase # "run"
WordsEv(g, st) == FoldLeft(LAMBDA a, e : a \o (IF e[1] = "c" THEN [i \in 1..e[4] |-> <<"v", [x \in 1..NVals(e[2]) |-> Num(10 * (e[3] + i - 1) + Axes(e[2])[x], st)]>>] ELSE << e >>),
                           <<>>, Ev(g, 0, 1))
Faithful == (Done /\ ~cs.mut /\ Suite # "nest") => (phase = "ok" /\ evs = WordsEv(cs.g, cs.st))
Verdict == phase \in {"ok", "no"} => ((phase = "ok") <=> Derivable)
Balanced == phase = "ok" => (Cardinality({i \in DOMAIN evs : evs[i][1] = "gs"}) = Cardinality({i \in DOMAIN evs : evs[i][1] = "ge"}) /\ depth = 0)
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson([txt |-> cs.txt, ok |-> IF "mixed" \in form THEN "any" ELSE phase, evs |-> evs])>>)
=============================================================================

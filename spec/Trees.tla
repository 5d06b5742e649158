-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Bounded families of geometry trees shared by the specifications.        *)
(***************************************************************************)
EXTENDS Geo
SeqsUpTo(SS, n) == UNION {[1..m -> SS] : m \in 0..n}
SeqsFrom(SS, lo, n) == UNION {[1..m -> SS] : m \in lo..n}

RingLists == {<<>>, <<0>>, <<1>>, <<2>>, <<4>>, <<1, 2>>, <<0, 2>>, <<2, 0>>, <<0, 0>>, <<2, 0, 1>>, <<1, 1, 1>>}
RingLists2 == {<<>>, <<0>>, <<2>>, <<2, 1>>, <<0, 2>>}
BaseTrees(d) ==
  {Pt(d, 0), Pt(d, 1), Ls(d, 0), Ls(d, 2), Pg(d, <<>>), Pg(d, <<2, 1>>), MPs(d, <<1, 1>>), MPs(d, <<>>),
   MPs(d, <<0, 1>>), MLs(d, <<2, 1>>), MLs(d, <<0>>), MGs(d, << <<1>>, <<1, 2>> >>), Empty(GC, d)}
SimpleTrees(d) ==
  {Pt(d, 0), Pt(d, 1), Ls(d, 0), Ls(d, 1), Ls(d, 2), Ls(d, 5)}
  \cup {Pg(d, r) : r \in RingLists}
  \cup {MPs(d, ns) : ns \in SeqsUpTo({0, 1}, 3)}
  \cup {MLs(d, ns) : ns \in SeqsUpTo({0, 1, 2}, 3)}
  \cup {MGs(d, rs) : rs \in SeqsUpTo(RingLists2, 2)}
  \cup {MGs(d, rs) : rs \in {<< <<1>>, <<>>, <<1, 1>> >>, << <<1>>, <<1>>, <<1>> >>, << <<0>>, <<>>, <<0, 0>> >>}}
Coll1(d) == {Coll(GC, d, ks) : ks \in SeqsUpTo(BaseTrees(d), 2)}
Nest(d) == {Pt(d, 1), Ls(d, 0), MPs(d, <<1, 0>>), Coll(GC, d, <<>>), Coll(GC, d, << Pt(d, 1) >>),
            Coll(GC, d, << Empty(GC, d), Pg(d, <<1>>) >>)}
Coll2(d) == {Coll(GC, d, ks) : ks \in SeqsFrom(Nest(d), 1, 3)}
Mixed == {Coll(GC, d, << Pt(e, n), Ls(f, 2) >>) : d \in Dims, e \in Dims, f \in Dims, n \in {0, 1}}
         \cup {Coll(GC, d, << Pg(e, <<2>>), MPs(f, <<0, 1>>) >>) : d \in Dims, e \in Dims, f \in Dims}

RECURSIVE Tower(_, _, _)
Tower(m, d, g) == IF m = 0 THEN g ELSE Coll(GC, d, << Tower(m - 1, d, g) >>)
Towers == {Tower(m, XY, g) : m \in {1, 2, 5, 15, 26, 27, 28}, g \in {Pt(XY, 1), Pg(XY, <<2>>), MPs(XY, <<1, 1>>), Empty(GC, XY)}}

Big == {1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 383, 384, 385}
BigTrees == {Ls(d, n) : d \in Dims, n \in Big}
            \cup {Pg(XY, <<n, m>>) : n \in {64, 65, 192, 193}, m \in {1, 63, 64, 129}}
            \cup {MLs(XYZ, <<n, m>>) : n \in {0, 64, 128}, m \in {1, 129}}
            \cup {Coll(MP, d, [i \in 1..n |-> Pt(d, 1)]) : d \in {XY, XYZM}, n \in {63, 64, 65, 130}}
            \cup {Coll(ML, d, [i \in 1..n |-> Ls(d, 1)]) : d \in {XYM}, n \in {65, 130}}
            \cup {Coll(GC, d, [i \in 1..n |-> Ls(d, 2)]) : d \in {XY}, n \in {33, 66}}

=============================================================================

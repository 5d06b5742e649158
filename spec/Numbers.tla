------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Decimal text and binary numbers.  A number is sign * m * 2^e with m     *)
(* given bit by bit; the machine builds its exact decimal expansion        *)
(* D / 10^q with arbitrary-precision digits (one bit or one scaling per    *)
(* step).  Shown(p) is the text of that number rounded half-even to p      *)
(* digits; Spellings are texts of exactly the same number.  With           *)
(* half = TRUE one more 1-bit is appended: the value lies exactly half way *)
(* between two doubles, and texts just below and above it must be read as  *)
(* the lower and the upper one.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, NumText
CONSTANTS Suite, Shard, Shards, Emit
VARIABLES cs, i, x, dig, q, phase
vars == <<cs, i, x, dig, q, phase>>

(* ---------------- digit strings, least significant first --------------- *)
MulAdd(d, k, c) == LET r == FoldLeft(LAMBDA a, z : << Append(a[1], (z * k + a[2]) % 10), (z * k + a[2]) \div 10 >>, << <<>>, c >>, d)
                   IN IF r[2] = 0 THEN r[1] ELSE IF r[2] < 10 THEN Append(r[1], r[2]) ELSE r[1] \o << r[2] % 10, r[2] \div 10 >>
RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Cmp(a0, b0) == LET a == Trim(a0)  b == Trim(b0) IN
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET df == {k \in DOMAIN a : a[k] # b[k]} IN
       IF df = {} THEN 0 ELSE LET k == CHOOSE y \in df : \A z \in df : z <= y IN IF a[k] < b[k] THEN -1 ELSE 1
AtD(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
Sub(a, b) == \* a >= b
  FoldLeft(LAMBDA z, k : LET v == a[k] - AtD(b, k) - z[2] IN << Append(z[1], IF v < 0 THEN v + 10 ELSE v), IF v < 0 THEN 1 ELSE 0 >>,
           << <<>>, 0 >>, [k \in 1..Len(a) |-> k])[1]
Shift(d, k) == [j \in 1..k |-> 0] \o d
PowTen(k) == Shift(<<1>>, k)

(* ------------------------------- printing ------------------------------ *)
\* half-even rounding of dig / 10^q to p digits: an integer R (digits), meaning R / 10^p
RoundTo(d, qq, p) ==
  IF p >= qq THEN Shift(d, p - qq)
  ELSE LET c == qq - p  keep == IF c >= Len(d) THEN <<>> ELSE SubSeq(d, c + 1, Len(d))
           rest == IF c >= Len(d) THEN d ELSE SubSeq(d, 1, c)
           cm == Cmp(MulAdd(rest, 2, 0), PowTen(c))
       IN IF cm > 0 \/ (cm = 0 /\ keep # <<>> /\ keep[1] % 2 = 1) THEN MulAdd(keep, 1, 1) ELSE keep
Str(ds) == FoldLeft(LAMBDA a, z : ToString(z) \o a, "", ds)
RECURSIVE DropLowZeros(_)
DropLowZeros(d) == IF d # <<>> /\ d[1] = 0 THEN DropLowZeros(Tail(d)) ELSE d
IntPart(r, p) == LET n == IF Len(r) <= p THEN <<>> ELSE Trim(SubSeq(r, p + 1, Len(r))) IN IF n = <<>> THEN "0" ELSE Str(n)
Frac(r, p) == DropLowZeros([k \in 1..p |-> AtD(r, k)])
Shown(p) == LET r == RoundTo(dig, q, p)  f == Frac(r, p) IN
  (IF cs.neg THEN "-" ELSE "") \o IntPart(r, p) \o (IF f = <<>> THEN "" ELSE "." \o Str(f))
\* declarative: nearest multiple of 10^-p, ties to the even one
Nearest(p) == LET r == RoundTo(dig, q, p)
                  a == IF p >= q THEN Shift(dig, p - q) ELSE dig
                  b == IF p >= q THEN r ELSE Shift(r, q - p)
                  unit == IF p >= q THEN <<1>> ELSE PowTen(q - p)
                  df == IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)
                  cm == Cmp(MulAdd(df, 2, 0), unit)
              IN cm < 0 \/ (cm = 0 /\ (Trim(r) = <<>> \/ r[1] % 2 = 0))

(* ------------------------------ spellings ------------------------------ *)
Sgn == IF cs.neg THEN "-" ELSE ""
Exact(d, qq) == IntPart(d, qq) \o (IF qq = 0 THEN "" ELSE "." \o Str([k \in 1..qq |-> AtD(d, k)]))
Whole(d) == IF Trim(d) = <<>> THEN "0" ELSE Str(Trim(d))
Spellings(d, qq) ==
  LET t == Trim(d)  n == Len(t) IN
  {Sgn \o Exact(d, qq), Sgn \o "00" \o Exact(d, qq), Sgn \o Whole(d) \o "e-" \o ToString(qq), Sgn \o Whole(d) \o ".0E-0" \o ToString(qq)}
  \cup (IF n = 0 THEN {} ELSE {Sgn \o "." \o Str(t) \o "e" \o ToString(n - qq), Sgn \o "0.00" \o Str(t) \o "E" \o (IF n + 2 - qq >= 0 THEN "+" ELSE "") \o ToString(n + 2 - qq),
                               Sgn \o ToString(t[n]) \o "." \o Str(SubSeq(t, 1, n - 1)) \o "e" \o ToString(n - 1 - qq)})

(* ------------------------------ scenarios ------------------------------ *)
\* bits of m, most significant first
Bits(n) == [k \in 1..n |-> 1]
RECURSIVE BinOf(_)
BinOf(n) == IF n = 0 THEN <<>> ELSE Append(BinOf(n \div 2), n % 2)
Seed(c) == (c * 7919 + 13) % 65536
Rnd(y) == (y * 1103 + 12345) % 65536
Ints == {0, 1, 2, 5, 9, 10, 12, 49, 95, 99, 100, 101, 950, 999, 1000, 9999, 123456, 999999, 1000000, 99999999, 123456789, 999999999}
Sc(bits, n, e, neg, half, sd) == [bits |-> bits, n |-> n, e |-> e, neg |-> neg, half |-> half, sd |-> sd]
Init ==
  /\ i = 0 /\ dig = <<>> /\ q = 0 /\ phase = "bits"
  /\ \/ Suite = "dyadic" /\ \E n \in Ints, t \in 0..8, neg \in BOOLEAN :
          \E j \in {y \in 0..(2^t - 1) : (t = 0 \/ y % 2 = 1) /\ (t <= 4 \/ (y * 3 + n + t) % (2^(t - 3)) = 1)} :
          /\ n < 1000000 \/ t < 4
          /\ (j + t + n) % Shards = Shard
          /\ LET b == BinOf(n) \o [k \in 1..t |-> (j \div 2^(t - k)) % 2] IN cs = Sc(b, Len(b), -t, neg, FALSE, 0)
     \/ Suite = "random" /\ \E c \in {y \in 0..1199 : y % Shards = Shard} :
          \* 53 pseudo-random bits (or 53 ones), from below one to 1e17
          cs = Sc(IF c % 40 = 7 THEN Bits(53) ELSE IF c % 40 = 9 THEN <<1>> \o [k \in 1..52 |-> 0] ELSE <<1>>, 53, 3 - (c % 62), c % 3 = 0, FALSE, Seed(c))
     \/ Suite = "half" /\ \E c \in {y \in 0..599 : y % Shards = Shard} :
          cs = Sc(IF c % 40 = 7 THEN Bits(53) ELSE IF c % 40 = 9 THEN <<1>> \o [k \in 1..52 |-> 0] ELSE <<1>>, 53, 3 - (c % 52), c % 3 = 0, TRUE, Seed(c))
  /\ x = cs.sd
BitAt(k) == IF k <= Len(cs.bits) THEN cs.bits[k] ELSE (x \div 4096) % 2
Bit == /\ phase = "bits" /\ i < cs.n
       /\ dig' = MulAdd(dig, 2, BitAt(i + 1)) /\ x' = Rnd(x) /\ i' = i + 1 /\ UNCHANGED <<cs, q, phase>>
E0 == IF cs.half THEN cs.e - 1 ELSE cs.e
Half == /\ phase = "bits" /\ i = cs.n
        /\ dig' = (IF cs.half THEN MulAdd(dig, 2, 1) ELSE dig) /\ phase' = "scale" /\ i' = 0 /\ UNCHANGED <<cs, x, q>>
Scale == /\ phase = "scale" /\ i < (IF E0 < 0 THEN -E0 ELSE E0)
         /\ dig' = MulAdd(dig, IF E0 < 0 THEN 5 ELSE 2, 0) /\ q' = (IF E0 < 0 THEN q + 1 ELSE q) /\ i' = i + 1 /\ UNCHANGED <<cs, x, phase>>
Stop == /\ phase = "scale" /\ i = (IF E0 < 0 THEN -E0 ELSE E0) /\ phase' = "done" /\ UNCHANGED <<cs, i, x, dig, q>>
Spec == Init /\ [][Bit \/ Half \/ Scale \/ Stop]_vars
Done == phase = "done"
Precs == IF cs.half THEN {} ELSE {0, 1, 2, 3, 5, 6, 8, 12, 15, 16}
PrintsNearest == Done => \A p \in Precs : Nearest(p)
Canonical == Done => \A p \in Precs : LET t == Shown(p) IN
   /\ IsNum(t) /\ Ch(t, Len(t)) # "."
   /\ (\E k \in 1..Len(t) : Ch(t, k) = ".") => Ch(t, Len(t)) # "0"
   /\ p = 0 => \A k \in 1..Len(t) : Ch(t, k) # "."
SpellNum == Done => \A s \in Spellings(dig, q) : IsNum(s)
\* texts just beside the exact value
Ten == MulAdd(dig, 10, 0)
Below == LET d == Sub(Ten, <<1>>) IN {Sgn \o Exact(d, q + 1), Sgn \o Whole(d) \o "e-" \o ToString(q + 1)}
Above == LET d == MulAdd(dig, 10, 1) IN {Sgn \o Exact(d, q + 1), Sgn \o Whole(d) \o "e-" \o ToString(q + 1)}
Emitted == (Emit /\ Done) => PrintT(<<"CASE", ToJson([sig |-> Len(DropLowZeros(Trim(dig))), exact |-> Sgn \o Exact(dig, q), half |-> cs.half, neg |-> cs.neg, e |-> cs.e,
    spell |-> SetToSeq(Spellings(dig, q)), below |-> IF cs.half THEN SetToSeq(Below) ELSE <<>>, above |-> IF cs.half THEN SetToSeq(Above) ELSE <<>>,
    prints |-> [k \in 1..Cardinality(Precs) |-> LET p == SetToSeq(Precs)[k] IN [p |-> p, t |-> Shown(p)]]])>>)
=============================================================================

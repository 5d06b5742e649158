------------------------------- MODULE NumText -------------------------------
(* Which words are decimal numbers: [-] digits [. digits] [e [+-] digits]    *)
EXTENDS Integers, Sequences
Ch(t, j) == IF j \in 1..Len(t) THEN SubSeq(t, j, j) ELSE ""
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE DigitsEnd(_, _)
DigitsEnd(w, j) == IF j <= Len(w) /\ Ch(w, j) \in Digit THEN DigitsEnd(w, j + 1) ELSE j
IsNum(w) ==
  LET a == IF Ch(w, 1) = "-" THEN 2 ELSE 1
      b == DigitsEnd(w, a)
      c == IF b <= Len(w) /\ Ch(w, b) = "." THEN DigitsEnd(w, b + 1) ELSE b
      nd == (b - a) + (IF c > b THEN c - b - 1 ELSE 0)
      x == IF c <= Len(w) /\ Ch(w, c) \in {"e", "E"}
           THEN LET sg == IF Ch(w, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1
                    e == DigitsEnd(w, sg)
                IN IF e > sg THEN e ELSE 0
           ELSE c
  IN nd > 0 /\ x = Len(w) + 1
=============================================================================

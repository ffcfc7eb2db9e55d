------------------------------- MODULE Words -------------------------------
(* Words over [0..q-1] as sequences, digits and exact logarithms.            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE CeilLogAux(_, _, _, _)
CeilLogAux(x, b, w, pw) == IF pw >= x THEN w ELSE CeilLogAux(x, b, w + 1, pw * b)
(* least w with b^w >= x *)
CeilLog(x, b) == CeilLogAux(x, b, 0, 1)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* the w base-b digits of x, most significant first *)
Digits(x, b, w) == [j \in 1..w |-> (x \div Pow(b, w - j)) % b]

RECURSIVE ValueAux(_, _, _, _)
ValueAux(s, b, j, acc) == IF j > Len(s) THEN acc ELSE ValueAux(s, b, j + 1, acc * b + s[j])
Value(s, b) == ValueAux(s, b, 1, 0)

IsPre(u, v) == Len(u) <= Len(v) /\ \A j \in 1..Len(u) : u[j] = v[j]

RECURSIVE FlattenAux(_, _, _)
FlattenAux(ss, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo = hi THEN ss[lo]
    ELSE LET m == (lo + hi) \div 2 IN FlattenAux(ss, lo, m) \o FlattenAux(ss, m + 1, hi)
(* concatenation of a sequence of words (balanced, so cost is n log n) *)
Flatten(ss) == FlattenAux(ss, 1, Len(ss))

(* all words over 0..q-1 of length n *)
WordsOf(q, n) == [1..n -> 0..(q - 1)]

RECURSIVE SumAux(_, _, _)
SumAux(s, j, acc) == IF j > Len(s) THEN acc ELSE SumAux(s, j + 1, acc + s[j])
Sum(s) == SumAux(s, 1, 0)
=============================================================================

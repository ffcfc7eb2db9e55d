----------------------------- MODULE Quantizers -----------------------------
(* Scalar quantizers over integers (the unit is chosen so that all numbers   *)
(* are integral).  Cell k of thresholds t is t[k] <= x < t[k+1].              *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
InCell(t, x, k) == /\ k \in 0..Len(t)
                   /\ (k > 0 => t[k] <= x)
                   /\ (k < Len(t) => x < t[k + 1])
Cell(t, x) == CHOOSE k \in 0..Len(t) : InCell(t, x, k)
Interleaved(y, t) == Len(t) = Len(y) - 1 /\ \A j \in 1..Len(t) : y[j] < t[j] /\ t[j] < y[j + 1]
(* uniform quantizer, unit = step / 8, offset = th / 8 steps *)
ULevels(L, th) == [j \in 1..L |-> 8 * (j - 1) - 4 * (L - 1) + th]
UThresholds(L, th) == [j \in 1..(L - 1) |-> ULevels(L, th)[j] + 4]
MidRiser(L) == IF L % 2 = 0 THEN 0 ELSE -4
MidTread(L) == IF L % 2 = 1 THEN 0 ELSE -4
(* a density that is piecewise constant: weight w[k] on [b[k], b[k+1])        *)
(* Moments of w over an interval [lo, hi), each multiplied by a constant:     *)
Ov(b, k, lo, hi) == LET l == IF b[k] > lo THEN b[k] ELSE lo
                        h == IF b[k + 1] < hi THEN b[k + 1] ELSE hi
                    IN IF l < h THEN <<l, h>> ELSE <<0, 0>>
RECURSIVE MassAux(_, _, _, _, _, _)
MassAux(b, w, lo, hi, k, acc) == IF k > Len(w) THEN acc
    ELSE MassAux(b, w, lo, hi, k + 1, LET o == Ov(b, k, lo, hi) IN acc + w[k] * (o[2] - o[1]))
Mass(b, w, lo, hi) == MassAux(b, w, lo, hi, 1, 0)
RECURSIVE Mom1Aux(_, _, _, _, _, _)
Mom1Aux(b, w, lo, hi, k, acc) == IF k > Len(w) THEN acc
    ELSE Mom1Aux(b, w, lo, hi, k + 1, LET o == Ov(b, k, lo, hi) IN acc + w[k] * (o[2] * o[2] - o[1] * o[1]))
Mom1x2(b, w, lo, hi) == Mom1Aux(b, w, lo, hi, 1, 0)                          \* twice the first moment
RECURSIVE SqAux(_, _, _, _, _, _, _)
SqAux(b, w, y, lo, hi, k, acc) == IF k > Len(w) THEN acc
    ELSE SqAux(b, w, y, lo, hi, k + 1, LET o == Ov(b, k, lo, hi)
                                           h == o[2] - y
                                           l == o[1] - y
                                       IN acc + w[k] * (h * h * h - l * l * l))
Sqx3(b, w, y, lo, hi) == SqAux(b, w, y, lo, hi, 1, 0)                        \* three times the squared error about y
Edge(t, k, lo, hi) == IF k = 0 THEN lo ELSE IF k > Len(t) THEN hi
                      ELSE IF t[k] < lo THEN lo ELSE IF t[k] > hi THEN hi ELSE t[k]
RECURSIVE MseAux(_, _, _, _, _, _)
MseAux(y, t, b, w, k, acc) == IF k > Len(y) THEN acc
    ELSE MseAux(y, t, b, w, k + 1, acc + Sqx3(b, w, y[k], Edge(t, k - 1, b[1], b[Len(b)]), Edge(t, k, b[1], b[Len(b)])))
Msex3(y, t, b, w) == MseAux(y, t, b, w, 1, 0)
=============================================================================

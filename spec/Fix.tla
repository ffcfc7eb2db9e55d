-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic with 24 fractional bits inside 32-bit integers, and *)
(* the elementary functions on rationals n/d that pulse shaping and error     *)
(* probabilities need.  MC_Fix checks the identities that determine them.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
F1 == 16777216                       \* 1.0
FPI == 52707179                      \* pi
FINVPI == 5340354                    \* 1 / pi
FLN2 == 11629080                     \* ln 2
FLOG2E == 24204406                   \* 1 / ln 2
FAbs(x) == IF x < 0 THEN -x ELSE x
(* product of |x|, |y| < 8 with |x y| < 64 *)
FMul(x, y) == LET a == FAbs(x) b == FAbs(y)
                  a1 == a \div 4096 a0 == a % 4096 b1 == b \div 4096 b0 == b % 4096
                  p == a1 * b1 + ((a1 * b0 + a0 * b1 + ((a0 * b0) \div 4096) + 2048) \div 4096)
              IN IF (x < 0) # (y < 0) THEN -p ELSE p
Steps3 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Steps24 == [j \in 1..24 |-> j]
(* n / d for 0 <= n, 0 < d < 2^27, n / d < 64: integer part, then 8 octal digits *)
FDivPos(n, d) == FoldLeft(LAMBDA s, j : LET r == 8 * s[2] IN <<8 * s[1] + (r \div d), r % d>>, <<n \div d, n % d>>, Steps3)[1]
FFrac(n, d) == IF d < 0 THEN (IF n < 0 THEN FDivPos(-n, -d) ELSE -FDivPos(n, -d))
               ELSE IF n < 0 THEN -FDivPos(-n, d) ELSE FDivPos(n, d)
(* quotient of two fixed-point numbers, |y| < 8 *)
FDiv(x, y) == FFrac(x, y)
(* square root of 0 <= x < 8, digit by digit *)
FSqrt(x) == IF x = 0 THEN 0 ELSE FoldLeft(LAMBDA r, j : LET q == r + 2^(26 - j) IN IF q < 3 * F1 /\ FMul(q, q) <= x THEN q ELSE r, 0, [j \in 1..26 |-> j])
(* Taylor sums by Horner's rule: 1 - y/(a1) (1 - y/(a2) (...)) *)
Horner(y, as) == FoldRight(LAMBDA a, acc : F1 - (FMul(y, acc) \div a), as, F1)
SmallSin(x) == FMul(x, Horner(FMul(x, x), <<6, 20, 42, 72, 110>>))          \* |x| <= pi/4
SmallCos(x) == Horner(FMul(x, x), <<2, 12, 30, 56, 90>>)
(* cos and sin of n/d turns, d > 0, 8 d < 2^31 *)
RECURSIVE CosFold(_, _), SinFold(_, _)
(* 0 <= n <= d / 2 *)
CosFold(n, d) == IF 4 * n > d THEN -CosFold(d - 2 * n, 2 * d)
                 ELSE IF 8 * n > d THEN SmallSin(2 * FMul(FPI, FFrac(d - 4 * n, 4 * d)))
                 ELSE SmallCos(2 * FMul(FPI, FFrac(n, d)))
FCos(n, d) == LET m == n % d k == IF 2 * m > d THEN d - m ELSE m IN CosFold(k, d)
SinFold(n, d) == IF 4 * n > d THEN SinFold(d - 2 * n, 2 * d)
                 ELSE IF 8 * n > d THEN SmallCos(2 * FMul(FPI, FFrac(d - 4 * n, 4 * d)))
                 ELSE SmallSin(2 * FMul(FPI, FFrac(n, d)))
FSin(n, d) == LET m == n % d IN IF 2 * m > d THEN -SinFold(d - m, d) ELSE SinFold(m, d)
(* sin(pi x) / (pi x) at x = n/d *)
FSinc(n, d) == LET k == FAbs(n) IN
    IF k = 0 THEN F1
    ELSE IF 4 * k <= d THEN LET x == FMul(FPI, FFrac(k, d)) IN Horner(FMul(x, x), <<6, 20, 42, 72, 110>>)
    ELSE FMul(FMul(FSin(k, 2 * d), FFrac(d, k)), FINVPI)
(* 2^-y, y >= 0 *)
ExpNeg(x) == Horner(x, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)                     \* e^-x, 0 <= x <= 0.7
RECURSIVE Halve(_, _)
Halve(x, k) == IF k = 0 \/ x = 0 THEN x ELSE Halve((x + 1) \div 2, k - 1)
FExp2Neg(y) == LET k == y \div F1 IN IF k > 26 THEN 0 ELSE Halve(ExpNeg(FMul(FLN2, y % F1)), k)
FExpNeg(x) == FExp2Neg(FMul(x, FLOG2E))                                      \* e^-x, 0 <= x < 8
=============================================================================

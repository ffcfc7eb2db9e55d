-------------------------------- MODULE Logs --------------------------------
(* Binary logarithms in fixed point, by repeated squaring of a 28-bit         *)
(* mantissa.  Values are in units of 2^-20 (Q20).  All arithmetic stays       *)
(* within 32 bits.                                                           *)
EXTENDS Integers, Sequences
ONE == 1048576          \* 2^20
P14 == 16384
P28 == 268435456
(* x^2 / 2^28 for x in [2^28, 2^29) *)
Sqr28(x) == LET h == x \div P14 l == x % P14 IN h * h + ((2 * h * l) \div P14) + ((l * l) \div P28)
RECURSIVE Norm(_, _)    \* n = mantissa * 2^(e - 28), mantissa in [2^28, 2^29)
Norm(x, e) == IF x < P28 THEN Norm(2 * x, e - 1) ELSE IF x >= 2 * P28 THEN Norm(x \div 2, e + 1) ELSE <<x, e>>
RECURSIVE LogBits(_, _, _)
LogBits(x, k, acc) ==   \* k more bits of the logarithm of x / 2^28
    IF k = 0 THEN acc
    ELSE LET y == Sqr28(x) IN
         IF y >= 2 * P28 THEN LogBits(y \div 2, k - 1, 2 * acc + 1) ELSE LogBits(y, k - 1, 2 * acc)
Log2Calc(n) == LET m == Norm(n, 28) IN (m[2] * ONE) + LogBits(m[1], 20, 0)
LogMax == 500
LogTab == [n \in 1..LogMax |-> Log2Calc(n)]
Log2(n) == IF n <= LogMax THEN LogTab[n] ELSE Log2Calc(n)
Abs(x) == IF x < 0 THEN -x ELSE x
(* w * l / d without overflow, 0 <= w <= d <= 40000 *)
MulDiv(w, l, d) == IF l < 0 THEN -((((-l) \div d) * w) + ((((-l) % d) * w) \div d))
                   ELSE ((l \div d) * w) + (((l % d) * w) \div d)
(* product of two Q20 numbers *)
RECURSIVE Mul20(_, _)
Mul20(a, b) == IF a < 0 THEN -Mul20(-a, b)
               ELSE IF b < 0 THEN -Mul20(a, -b)
               ELSE LET a1 == a \div 1024 a0 == a % 1024 b1 == b \div 1024 b0 == b % 1024
                    IN a1 * b1 + ((a1 * b0 + a0 * b1) \div 1024) + ((a0 * b0) \div ONE)
=============================================================================

-------------------------------- MODULE Stats --------------------------------
(* Acceptance regions for relative frequencies.                              *)
EXTENDS Integers
(* Bernstein's bound: a sum of m independent indicators of probability q =    *)
(* num/den leaves this interval with probability below 5 in 10^9.             *)
Within(cnt, m, num, den) ==
    LET z == (16 * (cnt * den - m * num)) \div den
        a == IF z < 0 THEN -z ELSE z
        var == ((m * num) * (den - num)) \div (den * den)
    IN a <= 40000 /\ a * a <= (10240 * (var + 1)) + (224 * a)
=============================================================================

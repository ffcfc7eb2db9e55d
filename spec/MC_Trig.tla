------------------------------ MODULE MC_Trig ------------------------------
(* The cosine table is the unique one with cos 0 = 1, a quarter turn giving  *)
(* 0 and the addition theorem; 2^(-j/16) multiplies.  The machine turns by   *)
(* every angle a from every angle t.                                         *)
EXTENDS Trig
VARIABLES t, a
Abs(x) == IF x < 0 THEN -x ELSE x
Init == t \in 0..959 /\ a = 0
Next == a < 959 /\ a' = a + 17 /\ t' = (t + 1) % 960
Addition == LET lhs == CosT(t + a) * TrigS
                rhs == CosT(t) * CosT(a) - SinT(t) * SinT(a)
            IN Abs(lhs - rhs) <= 50000
Unit == Abs(CosT(t) * CosT(t) + SinT(t) * SinT(t) - TrigS * TrigS) <= 40000
Powers == \A i, j \in 1..16 : i + j <= 17 => Abs(HalfPow[i] * HalfPow[j] - HalfPow[i + j - 1] * 20000) <= 30000
Fix == CosT(0) = TrigS /\ CosT(240) = 0 /\ CosT(480) = -TrigS /\ CosT(160) = 10000 /\ SinT(80) = 10000 /\ HalfPow[1] = 20000
Monotone == \A x \in 1..240 : CosTable[x + 1] < CosTable[x] \/ x < 6
=============================================================================

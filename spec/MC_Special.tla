----------------------------- MODULE MC_Special -----------------------------
(* The machine moves one threshold x outwards in steps of 1/H, accumulating   *)
(* by Simpson's rule the Gaussian density and, along x^2/2, the density of    *)
(* the non-central chi law; the tails of Special must be what is left.        *)
(* L-values: the odds of the sum of two bits from their joint law.            *)
EXTENDS Special
CONSTANTS H, X, MaxM
VARIABLES a, m, j, g, q
vars == <<a, m, j, g, q>>
Init == a \in 0..3 /\ m \in 1..MaxM /\ j = 0 /\ g = 0 /\ q = 0
Dens(n, d) == FMul(FISQ2PI, FExpNeg(FFrac(n * n, 2 * d * d)))
(* d/dx of Marcum's tail: -x P(J = m + K - 1) *)
Chi(n, d) == FMul(FFrac(n, d), MarcumSlope(m, a, 1, n, d))
Step(f(_, _)) == (f(j, H) + 4 * f(2 * j + 1, 2 * H) + f(j + 1, H)) \div (6 * H)
Next == j < X * H /\ j' = j + 1 /\ g' = g + (IF j < 4 * H THEN Step(Dens) ELSE 0) /\ q' = q + Step(Chi) /\ UNCHANGED <<a, m>>
Spec == Init /\ [][Next]_vars
Half1 == F1 \div 2
(* e^y - 1 for y = ln(1 + e^-x) in Q20 *)
Back(y) == FDiv(F1, FExpNeg(16 * y)) - F1
Same == LET J == Poisson(j * j, 2 * H * H) K == Poisson(a * a, 2) IN
        FoldLeft(LAMBDA acc, t : LET i == K.lo + t - J.lo IN acc + (IF i \in 1..Len(J.p) THEN FMul(K.p[t], J.p[i]) ELSE 0), 0, [t \in 1..Len(K.p) |-> t])
Near(u, v, e) == FAbs(u - v) <= e
Gaussian == j <= 4 * H => Near(GTail(FFrac(j, H)), Half1 - g, 120)
Chis == Near(Marcum(m, a, 1, j, H), F1 - q, 400)
(* the two representations of Mills' ratio meet; symmetry *)
Meet == (2 * H <= j /\ j <= 2 * H + 2) => LET x == FFrac(j, H) IN Near(FMul(MillsSeries(x), x), XMills(FDiv(FDiv(F1, x), x)), 200)
Symmetric == j < 8 * H => Near(GTail(FFrac(j, H)) + GTail(-FFrac(j, H)), F1, 0)
(* x > u and x < u in exchanged roles: Q_1(a, x) + Q_1(x, a) = 1 + P(J = K) *)
Exchange == (m = 1 /\ a > 0) => Near(Marcum(1, a, 1, j, H) + Marcum(1, j, H, a, 1), F1 + Same, 300)
(* odds A : B and C : D of two independent bits; the sum is 0 with weight AC + BD out of (A + B)(C + D) *)
Odds == \A d \in 1..3 : LET A == j + 1 B == a + 1 C == m D == d o == SumOdds(A, B, C, D) o2 == SumOdds(C, D, A, B) IN
        /\ o = o2 /\ o[1] + o[2] = (A + B) * (C + D)
        /\ (o[1] - o[2]) = (A - B) * (C - D)                                   \* tanh(l/2) multiply
        /\ SumOdds(A, B, D, C) = <<o[2], o[1]>>                                \* flipping a bit flips the sign
        /\ LET t == SumOdds(o[1], o[2], 2, 3) s == SumOdds(C, D, 2, 3) IN t = SumOdds(A, B, s[1], s[2])  \* associative
        /\ FAbs(LnRatio(o[1], o[2])) <= FAbs(LnRatio(A, B)) + 2
Softs == LET x == FFrac(j, H) IN Near(FExpNeg(IF x < 7 * F1 THEN x ELSE 0), IF x < 7 * F1 THEN Back(Soft(x)) ELSE F1, 400)
=============================================================================

------------------------------- MODULE Special -------------------------------
(* Error probabilities and L-value combination, by their probabilistic        *)
(* definitions: the Gaussian tail, the tail of the non-central chi law        *)
(* (Marcum), and the L-value of a modulo-2 sum.  Fixed point: Fix; logarithms *)
(* in Q20: Logs.                                                             *)
EXTENDS Fix, Logs
FISQ2PI == 6693135                              \* 1 / sqrt(2 pi)
(* ---- Gaussian tail, scaled: Mills(x) = Q(x) e^(x^2/2) ---- *)
(* e^(x^2/2) / 2 - (1 / sqrt(2 pi)) sum x^(2k+1) / (2k+1)!!, 0 <= x <= 2 *)
SeriesTerms == [j \in 1..26 |-> j]
MillsSeries(x) == LET y == FMul(x, x)
                      s == FoldLeft(LAMBDA st, k : LET t == FMul(st[2], y) \div (2 * k + 1) IN <<st[1] + t, t>>, <<x, x>>, SeriesTerms)[1]
                  IN (FDiv(F1, FExpNeg(y \div 2)) \div 2) - FMul(FISQ2PI, s)
(* sqrt(2 pi) x Mills(x) = 1 / (1 + u / (1 + 2 u / (1 + 3 u / ...))) with u = 1 / x^2, x >= 2 *)
Levels == [j \in 1..60 |-> j]
XMills(u) == FMul(FISQ2PI, FDiv(F1, FoldRight(LAMBDA k, acc : F1 + FDiv(k * u, acc), Levels, F1)))
(* Q(x) for a fixed-point x, |x| < 8 *)
GTailPos(x) == IF x <= 2 * F1 THEN FMul(MillsSeries(x), FExpNeg(FMul(x, x) \div 2))
              ELSE LET u == FDiv(FDiv(F1, x), x) IN FMul(FMul(XMills(u), FDiv(F1, x)), FExp2Neg(FMul(FMul(x, x) \div 2, FLOG2E)))
GTail(x) == IF x >= 0 THEN GTailPos(x) ELSE F1 - GTailPos(-x)

(* ---- Poisson weights, normalised: law of a Poisson variable of mean n/d on lo..(lo + Len - 1) ---- *)
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF r * r > n THEN ISqrt(n, r - 1) ELSE r
Width(n, d) == 8 * (ISqrt(n \div d, 60) + 1) + 20
Poisson(n, d) ==
    LET k0 == n \div d
        w == Width(n, d)
        up == FoldLeft(LAMBDA s, j : Append(s, FMul(s[Len(s)], FFrac(n, d * (k0 + j)))), <<F1>>, [j \in 1..w |-> j])
        dn == IF k0 = 0 THEN <<>> ELSE
              FoldLeft(LAMBDA s, j : Append(s, FMul(IF s = <<>> THEN F1 ELSE s[Len(s)], FFrac((k0 - j + 1) * d, n))), <<>>, [j \in 1..(IF k0 < w THEN k0 ELSE w) |-> j])
        raw == Reverse(dn) \o up
        tot == FoldLeft(LAMBDA a, b : a + (b \div 16), 0, raw)
    IN [lo |-> k0 - Len(dn), p |-> [j \in 1..Len(raw) |-> FFrac(raw[j] \div 16, tot)]]
Cumulate(s) == FoldLeft(LAMBDA acc, v : Append(acc, acc[Len(acc)] + v), <<0>>, s)
(* P(J < i) from the cumulated weights *)
Below(J, cum, i) == IF i <= J.lo THEN 0 ELSE IF i - J.lo >= Len(J.p) THEN F1 ELSE cum[i - J.lo + 1]
(* |a + complex noise|^2 / 2 exceeds x^2 / 2:  J < m + K, J ~ Poisson(x^2/2), K ~ Poisson(a^2/2) *)
Marcum(m, an, ad, xn, xd) ==
    LET J == Poisson(xn * xn, 2 * xd * xd)
        K == Poisson(an * an, 2 * ad * ad)
        cum == Cumulate(J.p)
    IN FoldLeft(LAMBDA acc, j : acc + FMul(K.p[j], Below(J, cum, m + K.lo + j - 1)), 0, [j \in 1..Len(K.p) |-> j])
(* P(J = m + K - 1): minus the derivative of the above in x^2/2 *)
MarcumSlope(m, an, ad, xn, xd) ==
    LET J == Poisson(xn * xn, 2 * xd * xd)
        K == Poisson(an * an, 2 * ad * ad)
    IN FoldLeft(LAMBDA acc, j : LET i == m + K.lo + j - 1 - J.lo IN acc + (IF i \in 1..Len(J.p) THEN FMul(K.p[j], J.p[i]) ELSE 0), 0, [j \in 1..Len(K.p) |-> j])

(* ---- L-values: odds P(0)/P(1) = a/b and c/d ---- *)
SumOdds(a, b, c, d) == <<a * c + b * d, a * d + b * c>>
(* natural logarithm of n/d, Q20 *)
LnRatio(n, d) == LET l == Log2(n) - Log2(d) IN IF l < 0 THEN -Mul20(-l, 726817) ELSE Mul20(l, 726817)
(* ln(1 + e^-x), x >= 0 in Q24, result Q20 *)
Soft(x) == IF x >= 8 * F1 THEN FExp2Neg(FMul(x \div 16, FLOG2E) * 16) \div 16 ELSE LnRatio(F1 + FExpNeg(x), F1)
=============================================================================

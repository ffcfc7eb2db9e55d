--------------------------- MODULE Constellations ---------------------------
(* Signal constellations.  A point is a sequence of coordinates in integer   *)
(* units: one per real dimension, two (real, imaginary) per complex one.     *)
(* Angles are in units of 1/960 turn.                                        *)
EXTENDS Trig, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
Rot(p, t) == IF t % 960 = 0 THEN p
             ELSE << RoundDiv(p[1] * CosT(t) - p[2] * SinT(t), TrigS), RoundDiv(p[1] * SinT(t) + p[2] * CosT(t), TrigS) >>
Polar(A, t) == << RoundDiv(A * CosT(t), TrigS), RoundDiv(A * SinT(t), TrigS) >>
Pam(M, delta) == [a \in 1..M |-> ((2 * (a - 1) - (M - 1)) * delta) \div 2]     \* delta even, or M odd
PamPts(M, delta) == [a \in 1..M |-> <<Pam(M, delta)[a]>>]
AskPts(M, A, t) == [a \in 1..M |-> Polar((a - 1) * A, t)]
PskPts(M, A, t) == [a \in 1..M |-> Polar(A, ((a - 1) * (960 \div M)) + t)]
Grid(Mi, Mq, di, dq) == LET x == Pam(Mi, di) y == Pam(Mq, dq) IN
                        [a \in 1..(Mi * Mq) |-> <<x[((a - 1) \div Mq) + 1], y[((a - 1) % Mq) + 1]>>]
QamPts(Mi, Mq, di, dq, t) == LET g == Grid(Mi, Mq, di, dq) IN [a \in 1..Len(g) |-> Rot(g[a], t)]
(* cross: a square of side L = 3 2^((k-3)/2) points without its four corner  *)
(* squares of side L/6, in the order of the square                           *)
CrossPts(M, k, delta, t) ==
    LET L == 3 * (2 ^ ((k - 3) \div 2))
        g == Grid(L, L, delta, delta)
        cut == L \div 6
        far(a) == LET x == (a - 1) \div L y == (a - 1) % L IN (x < cut \/ x >= L - cut) /\ (y < cut \/ y >= L - cut)
        keep == SelectSeq([a \in 1..Len(g) |-> a], LAMBDA a : ~far(a))
    IN [j \in 1..Len(keep) |-> Rot(g[keep[j]], t)]
RECURSIVE ApskPts(_, _, _, _)
ApskPts(Ms, As, ts, j) == IF j > Len(Ms) THEN <<>> ELSE PskPts(Ms[j], As[j], ts[j]) \o ApskPts(Ms, As, ts, j + 1)
OrthPts(M, A) == [a \in 1..M |-> [b \in 1..M |-> IF a = b THEN A ELSE 0]]
BiorthPts(M, A) == LET N == M \div 2 IN [a \in 1..M |-> [b \in 1..N |-> IF a = b THEN A ELSE IF a = b + N THEN -A ELSE 0]]
SimplexPts(M, A) == [a \in 1..M |-> [b \in 1..M |-> (IF a = b THEN A ELSE 0) - (A \div M)]]   \* M divides A
PointsOf(d) ==
    CASE d.kind = "general" -> d.pts
      [] d.kind = "pam" -> PamPts(d.M, d.delta)
      [] d.kind = "ask" -> AskPts(d.M, d.A, d.t)
      [] d.kind = "psk" -> PskPts(d.M, d.A, d.t)
      [] d.kind = "qam" -> QamPts(d.Mi, d.Mq, d.di, d.dq, d.t)
      [] d.kind = "cross" -> CrossPts(d.M, d.k, d.delta, d.t)
      [] d.kind = "apsk" -> ApskPts(d.Ms, d.As, d.ts, 1)
      [] d.kind = "orth" -> OrthPts(d.M, d.A)
      [] d.kind = "biorth" -> BiorthPts(d.M, d.A)
      [] d.kind = "simplex" -> SimplexPts(d.M, d.A)
RECURSIVE D2Aux(_, _, _, _)
D2Aux(p, q, j, acc) == IF j > Len(p) THEN acc ELSE D2Aux(p, q, j + 1, acc + (p[j] - q[j]) * (p[j] - q[j]))
D2(p, q) == D2Aux(p, q, 1, 0)
RECURSIVE MinD2Aux(_, _, _, _)
MinD2Aux(P, r, a, m) == IF a > Len(P) THEN m ELSE LET d == D2(P[a], r) IN MinD2Aux(P, r, a + 1, IF d < m THEN d ELSE m)
MinD2(P, r) == MinD2Aux(P, r, 2, D2(P[1], r))
RECURSIVE PairAux(_, _, _)
PairAux(P, a, m) == IF a >= Len(P) THEN m
                    ELSE PairAux(P, a + 1, LET d == MinD2(SubSeq(P, a + 1, Len(P)), P[a]) IN IF d < m THEN d ELSE m)
MinPair(P) == PairAux(P, 1, 2000000000)
RECURSIVE WSumAux(_, _, _, _)
WSumAux(w, x, a, acc) == IF a > Len(w) THEN acc ELSE WSumAux(w, x, a + 1, acc + w[a] * x[a])
WSum(w, x) == WSumAux(w, x, 1, 0)
Norm2(p) == D2(p, [j \in 1..Len(p) |-> 0])
(* Gaussian likelihood with noise variance 16 / ln 2 unit^2 (per exponent    *)
(* convention): 2^(-d2 / 16), relative to the nearest point                  *)
Lik(d) == IF d >= 16 * 16 THEN 0 ELSE HalfPow[(d % 16) + 1] \div (2 ^ (d \div 16))
RECURSIVE Tot(_, _, _)
Tot(s, j, acc) == IF j > Len(s) THEN acc ELSE Tot(s, j + 1, acc + s[j])
RECURSIVE Shrink(_)
Shrink(s) == IF Tot(s, 1, 0) <= 50000 THEN s ELSE Shrink([j \in 1..Len(s) |-> s[j] \div 2])
PostW(P, w, r) == LET d == TLCEval([a \in 1..Len(P) |-> D2(P[a], r)])
                      live == {d[a] : a \in {b \in 1..Len(P) : w[b] > 0}}
                      m == CHOOSE x \in live : \A y \in live : x <= y
                  IN TLCEval([a \in 1..Len(P) |-> IF w[a] = 0 THEN 0 ELSE w[a] * Lik(d[a] - m)])
(* q is the fixed-point (x 20000) normalised version of the weights u *)
PostOK(u, q) == LET s == TLCEval(Shrink(u)) tot == Tot(s, 1, 0) IN
    \A a \in 1..Len(u) : q[a] \in 0..20001 /\ Abs(q[a] * tot - 20000 * s[a]) <= 30 * tot + 160000
=============================================================================

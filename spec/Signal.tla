------------------------------- MODULE Signal -------------------------------
(* Arrays [shape, d] of Gaussian integers <<re, im>>, in row-major order, and *)
(* the index formulas of resampling, convolution and the Fourier transform.   *)
EXTENDS Trig, FiniteSets, TLC
Z == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
MulC(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Size(s) == ProdTo(s, Len(s))
(* the axis as a position 1..ndim; numpy counts negative axes from the end *)
Ax(s, ax) == IF ax < 0 THEN Len(s) + ax + 1 ELSE ax + 1
Pre(s, a) == ProdTo(s, a - 1)
Post(s, a) == Size(SubSeq(s, a + 1, Len(s)))
(* replace the line of length n along axis a by a line of m samples: sample k *)
(* of the new line is F(line, k), where line[j] is sample j - 1 of the old one *)
Along(x, a, m, F(_, _)) ==
    LET s == x.shape n == s[a] q == Post(s, a) p == Pre(s, a)
        sh == [s EXCEPT ![a] = m]
        Line(u, v) == TLCEval([j \in 1..n |-> x.d[(u * n + j - 1) * q + v + 1]])
        L == TLCEval([u \in 0..(p - 1), v \in 0..(q - 1) |-> LET li == Line(u, v) IN TLCEval([k \in 1..m |-> F(li, k - 1)])])
    IN [shape |-> sh, d |-> TLCEval([i \in 1..(p * m * q) |->
            LET v == (i - 1) % q k == ((i - 1) \div q) % m u == (i - 1) \div (q * m) IN L[u, v][k + 1]])]
CeilDiv(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b
Compress(x, a, M, off) == Along(x, a, CeilDiv(x.shape[a] - off, M), LAMBDA li, k : li[k * M + off + 1])
Expand(x, a, L, off) == Along(x, a, x.shape[a] * L, LAMBDA li, k : IF k % L = off THEN li[(k \div L) + 1] ELSE Z)
RECURSIVE ConvSum(_, _, _, _)
ConvSum(h, li, k, j) == IF j > Len(h) THEN Z
    ELSE Add(IF k - j + 2 \in 1..Len(li) THEN MulC(h[j], li[k - j + 2]) ELSE Z, ConvSum(h, li, k, j + 1))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
ConvLen(n, m, mode) == CASE mode = "full" -> n + m - 1 [] mode = "valid" -> Max2(n, m) - Min2(n, m) + 1 [] mode = "same" -> Max2(n, m)
ConvOff(n, m, mode) == CASE mode = "full" -> 0 [] mode = "valid" -> Min2(n, m) - 1 [] mode = "same" -> (Min2(n, m) - 1) \div 2
Convolve(x, a, h, mode) == LET n == x.shape[a] m == Len(h) IN
    Along(x, a, ConvLen(n, m, mode), LAMBDA li, k : ConvSum(h, li, k + ConvOff(n, m, mode), 1))
(* exp(-2 pi i k t / n), values times TrigS; n divides 960 *)
Twiddle(k, t, n) == LET w == (960 \div n) * ((k * t) % n) IN <<CosT(w), -SinT(w)>>
RECURSIVE DftSum(_, _, _, _)
DftSum(li, k, n, t) == IF t > Min2(n, Len(li)) THEN Z ELSE Add(MulC(li[t], Twiddle(k % n, t - 1, n)), DftSum(li, k, n, t + 1))
(* centred spectrum: sample j is frequency j - n div 2 *)
Dft(x, a, n) == Along(x, a, n, LAMBDA li, k : DftSum(li, k - (n \div 2) + n, n, 1))
Weight1(x) == LET RECURSIVE W(_) W(k) == IF k = 0 THEN 0 ELSE (IF x.d[k][1] < 0 THEN -x.d[k][1] ELSE x.d[k][1]) + (IF x.d[k][2] < 0 THEN -x.d[k][2] ELSE x.d[k][2]) + W(k - 1)
              IN W(Len(x.d))
=============================================================================

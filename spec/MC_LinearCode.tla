---------------------------- MODULE MC_LinearCode ----------------------------
(* The operators that judge the answers of real code objects, against each   *)
(* other and against plain definitions, on every systematic code of the given *)
(* sizes: one state per code, each extended column by column.                *)
EXTENDS LinearCode
CONSTANTS KMAX, MMAX
VARIABLES k, P                     \* dimension, packed columns of the parity part
vars == <<k, P>>
Init == k \in 1..KMAX /\ P = <<>>
Next == Len(P) < MMAX /\ \E x \in 0..(Pow(2, k) - 1) : P' = Append(P, x) /\ k' = k
Spec == Init /\ [][Next]_vars
m == Len(P)
n == k + m
BitAt(x, j) == (x \div Pow(2, j)) % 2
G == [a \in 1..k |-> [j \in 1..n |-> IF j <= k THEN (IF j = a THEN 1 ELSE 0) ELSE BitAt(P[j - k], a - 1)]]
H == [b \in 1..m |-> [j \in 1..n |-> IF j <= k THEN BitAt(P[b], j - 1) ELSE IF j - k = b THEN 1 ELSE 0]]
Words2 == {x \in 0..(Pow(2, n) - 1) : \A b \in 1..m : Dot2(H[b], Unpack(x, n)) = 0}
SynCols == [j \in 1..n |-> Pack(Col(H, j))]
Sp == Span(PackRows(G))
(* Krawtchouk polynomials by their recurrence *)
RECURSIVE Binom(_, _)
Binom(a, b) == IF b < 0 \/ b > a THEN 0 ELSE IF b = 0 \/ b = a THEN 1 ELSE Binom(a - 1, b - 1) + Binom(a - 1, b)
Kraw(w, i) == LET RECURSIVE S(_, _) S(j, acc) == IF j > w THEN acc ELSE S(j + 1, acc + (IF j % 2 = 0 THEN 1 ELSE -1) * Binom(i, j) * Binom(n - i, w - j)) IN S(0, 0)
AllOK ==
    LET W == TLCEval(Words2)
        sp == TLCEval(Sp)
        g == TLCEval(G)
        h == TLCEval(H)
        sc == TLCEval(SynCols)
        twd == TLCEval([w \in 1..(n + 1) |-> Cardinality({x \in W : PopSlow(x) = w - 1})])
        cw == TLCEval(CosetWeights({sc[j] : j \in 1..n}))
        D(x) == LET ds == {PopSlow(x ^^ y) : y \in W} IN CHOOSE d \in ds : \A e \in ds : d <= e
        B == TLCEval(IF m = 0 THEN [w \in 1..(n + 1) |-> IF w = 1 THEN 1 ELSE 0] ELSE WeightDist(Span(PackRows(h)), n))
        T(w) == LET RECURSIVE S(_, _) S(i, acc) == IF i > n THEN acc ELSE S(i + 1, acc + twd[i + 1] * Kraw(w, i)) IN S(0, 0)
    IN /\ Orthogonal(g, h) /\ Orthogonal(g, g) = (\A a \in 1..k, b \in 1..k : Dot2(g[a], g[b]) = 0)
       /\ {sp[j] : j \in 1..Len(sp)} = W /\ Len(sp) = Pow(2, k)        \* both matrices describe the same code
       /\ WeightDist(sp, n) = twd                                       \* three ways to its weights
       /\ WeightDistC(SpanC(g), n) = twd
       /\ SynWD(sc, m) = twd
       /\ MinDist(sp) = SynMin(sc, m)
       /\ Rank(g) = k /\ Rank(h) = m /\ RankOf(PackRows(g)) = k /\ RankSlow(g) = k /\ RankSlow(h) = m
       /\ Rank(g \o h) = RankSlow(g \o h) /\ Rank(h \o g \o g) = RankOf(PackRows(h \o g))
       /\ \A w \in 0..n : T(w) = Pow(2, k) * B[w + 1]                   \* MacWilliams
       /\ \A x \in 0..(Pow(2, n) - 1) : cw[Pack(Syndrome(h, Unpack(x, n)))] = D(x)   \* cosets: distance from the code
(* many bits at once *)
PopOK == P = <<>> => \A a \in 0..(Pow(2, 12) - 1) : Pop(a) = PopSlow(a) /\ Pop(a * 262144) = PopSlow(a) /\ Pop(a * 262144 + 262143) = PopSlow(a) + 18
                       /\ Pop(a * 4096 + 1365) = PopSlow(a) + 6
=============================================================================

-------------------------------- MODULE Info --------------------------------
(* Shannon's quantities for laws with integer weights, in Q20 bits.           *)
EXTENDS Logs, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(W) == SumTo(W, Len(W))
(* H(W/D) = sum (w/D) log (D/w), zero weights contributing nothing *)
Entropy(W, D) == SumTo([j \in 1..Len(W) |-> IF W[j] = 0 THEN 0 ELSE MulDiv(W[j], Log2(D) - Log2(W[j]), D)], Len(W))
AbsCont(W, V) == \A j \in 1..Len(W) : W[j] > 0 => V[j] > 0
(* D(W/D || V/F) when W is absolutely continuous with respect to V *)
Divergence(W, D, V, F) ==
    SumTo([j \in 1..Len(W) |-> IF W[j] = 0 THEN 0
              ELSE MulDiv(W[j], (Log2(W[j]) - Log2(D)) - (Log2(V[j]) - Log2(F)), D)], Len(W))
BinEntropy(w, D) == Entropy(<<w, D - w>>, D)
(* a channel: rows of weights with denominator D; input law p with denominator K *)
OutputLaw(p, M) == [y \in 1..Len(M[1]) |-> SumTo([x \in 1..Len(M) |-> p[x] * M[x][y]], Len(M))]
CondEntropy(p, K, M, D) == SumTo([x \in 1..Len(M) |-> MulDiv(p[x], Entropy(M[x], D), K)], Len(M))
Mutual(p, K, M, D) == Entropy(OutputLaw(p, M), K * D) - CondEntropy(p, K, M, D)
(* Every output law q bounds the capacity from above by the largest divergence of a row *)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
UpperBound(q, F, M, D) == MaxOf({Divergence(M[x], D, q, F) : x \in 1..Len(M)})
Usable(q, M) == \A x \in 1..Len(M) : AbsCont(M[x], q)
=============================================================================

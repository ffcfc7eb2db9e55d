------------------------------- MODULE MC_Info -------------------------------
(* Design model: the identities and inequalities of information theory, over  *)
(* every law and channel with small weights, and the accuracy of the logarithm. *)
EXTENDS Info, TLC
CONSTANTS DD, Full
VARIABLES kind, D, M, p, q
Tol == 24
Comp(n, d) == {r \in [1..n -> 0..d] : SumTo(r, n) = d}
Near(a, b) == Abs(a - b) <= Tol
(* logarithms: exact at powers of two, additive, increasing, log(1 + 1/n) between its elementary bounds *)
ASSUME \A k \in 0..28 : Log2(2^k) = k * ONE
ASSUME \A a, b \in 1..40 : Abs(Log2(a * b) - (Log2(a) + Log2(b))) <= 3
ASSUME \A n \in 1..400 : Log2(n) < Log2(n + 1)
(* 1/(n + 1) < ln(1 + 1/n) < 1/n, with log2 e from Log2(271801/99990) *)
LogE == Log2(271801) - Log2(99990)
ASSUME Abs(LogE - 1512775) <= 2
ASSUME \A n \in 3..300 : LET d == Log2(n + 1) - Log2(n) IN (d + 3) >= LogE \div (n + 1) /\ (d - 3) <= LogE \div n
ASSUME \A a \in {0, 1, 5, 1000, 99999, ONE, 3 * ONE + 7} : Mul20(a, ONE) = a /\ Mul20(ONE, a) = a /\ Mul20(-a, ONE) = -a
ASSUME \A w \in 0..30 : \A l \in {0, 7, ONE, 9 * ONE + 5} : MulDiv(w, l, 30) = (w * l) \div 30

Init == \/ /\ kind = "law" /\ D \in 1..DD /\ \E n \in 1..3 : p \in Comp(n, D) /\ q \in Comp(n, D)
           /\ M = << >>
        \/ /\ kind = "channel" /\ D \in 1..DD /\ \E n \in {1, 2} \cup Full : \E m \in {2, 3} :
                /\ M \in [1..n -> Comp(m, D)] /\ p \in Comp(n, 4) /\ q \in Comp(m, 4)
Next == UNCHANGED <<kind, D, M, p, q>>
Spec == Init /\ [][Next]_<<kind, D, M, p, q>>
EntropyBounds == kind = "law" =>
    LET h == Entropy(p, D) n == Len(p) IN
    /\ h >= 0 /\ h <= Log2(n) + Tol
    /\ (\E j \in 1..n : p[j] = D) => h = 0
    /\ (~\E j \in 1..n : p[j] = D) => h > Tol
    /\ (n * p[1] = D /\ \A j \in 1..n : p[j] = p[1]) <=> Near(h, Log2(n))
Gibbs == kind = "law" /\ AbsCont(p, q) =>
    LET d == Divergence(p, D, q, D) IN d >= -Tol /\ (p = q <=> Near(d, 0))
Joint(a, N) == [k \in 1..(Len(N) * Len(N[1])) |-> LET x == ((k - 1) \div Len(N[1])) + 1 y == ((k - 1) % Len(N[1])) + 1 IN a[x] * N[x][y]]
Product(a, N) == LET o == OutputLaw(a, N) IN
    [k \in 1..(Len(N) * Len(N[1])) |-> LET x == ((k - 1) \div Len(N[1])) + 1 y == ((k - 1) % Len(N[1])) + 1 IN a[x] * o[y]]
MutualIdentities == kind = "channel" =>
    LET I == Mutual(p, 4, M, D) IN
    /\ I >= -Tol /\ I <= Entropy(p, 4) + Tol /\ I <= Entropy(OutputLaw(p, M), 4 * D) + Tol
    /\ Near(I, Entropy(p, 4) + Entropy(OutputLaw(p, M), 4 * D) - Entropy(Joint(p, M), 4 * D))
    /\ Near(I, Divergence(Joint(p, M), 4 * D, Product(p, M), 16 * D))
(* weak duality: no input law exceeds the bound any output law gives *)
Minimax == kind = "channel" /\ Usable(q, M) => Mutual(p, 4, M, D) <= UpperBound(q, 4, M, D) + Tol
(* the closed forms of the binary channels *)
W2(w) == << <<D - w, w>>, <<w, D - w>> >>
E2(w) == << <<D - w, 0, w>>, <<0, D - w, w>> >>
Z2(w) == << <<D, 0>>, <<w, D - w>> >>
ClosedForms == kind = "law" /\ Len(p) = 2 => \A w \in 0..D :
    /\ Near(Mutual(p, D, W2(w), D), BinEntropy(p[1] * (D - w) + p[2] * w, D * D) - BinEntropy(w, D))
    /\ Near(Mutual(p, D, E2(w), D), MulDiv(D - w, BinEntropy(p[1], D), D))
    /\ Near(Mutual(p, D, Z2(w), D), BinEntropy(p[2] * (D - w), D * D) - MulDiv(p[2], BinEntropy(w, D), D))
    /\ Near(Mutual(<<1, 1>>, 2, W2(w), D), ONE - BinEntropy(w, D))
    /\ Near(UpperBound(<<1, 1>>, 2, W2(w), D), ONE - BinEntropy(w, D))
    /\ Near(Mutual(<<1, 1>>, 2, E2(w), D), MulDiv(D - w, ONE, D))
    /\ Near(UpperBound(<<D - w, D - w, 2 * w>>, 2 * D, E2(w), D), MulDiv(D - w, ONE, D))
=============================================================================

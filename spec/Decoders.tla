------------------------------ MODULE Decoders ------------------------------
(* Decoding rules.  Generator matrix G : sequence of k rows of length n.     *)
EXTENDS Families
Dist(u, v) == Wt(XorV(u, v))
RECURSIVE CorrAux(_, _, _, _)
CorrAux(v, r, j, acc) == IF j > Len(r) THEN acc ELSE CorrAux(v, r, j + 1, acc + (IF v[j] = 0 THEN r[j] ELSE -r[j]))
Corr(v, r) == CorrAux(v, r, 1, 0)        \* correlation of the word (0 -> +1, 1 -> -1) with soft values
AbsI(x) == IF x < 0 THEN -x ELSE x

(* ---- Reed majority logic, one row at a time ---- *)
(* the partition that checks row I: cosets of the span of the variables in I *)
RECURSIVE BitsVal(_)
BitsVal(T) == IF T = {} THEN 0 ELSE LET b == CHOOSE b \in T : TRUE IN Pow(2, b) + BitsVal(T \ {b})
ReedParts(I, mu) == {{BitsVal(T) + BitsVal(Q) : T \in SUBSET I} : Q \in SUBSET ((0..(mu - 1)) \ I)}
Parity(x, B) == Cardinality({p \in B : x[p + 1] = 1}) % 2
Majority(x, I, mu) == LET P == ReedParts(I, mu)
                          ones == Cardinality({B \in P : Parity(x, B) = 1})
                      IN IF 2 * ones > Cardinality(P) THEN 1 ELSE 0
RECURSIVE MinRel(_, _)
MinRel(r, B) == LET p == CHOOSE p \in B : TRUE
                    rest == B \ {p} IN
                IF rest = {} THEN AbsI(r[p + 1]) ELSE LET q == MinRel(r, rest) IN IF AbsI(r[p + 1]) < q THEN AbsI(r[p + 1]) ELSE q
RECURSIVE WSum(_, _, _)
WSum(P, x, r) == IF P = {} THEN 0 ELSE LET B == CHOOSE B \in P : TRUE IN (IF Parity(x, B) = 1 THEN -1 ELSE 1) * MinRel(r, B) + WSum(P \ {B}, x, r)
(* weighted majority variable for soft values r and residual word x *)
Weighted(x, r, I, mu) == WSum(ReedParts(I, mu), x, r)
Hard(r) == [j \in 1..Len(r) |-> IF r[j] < 0 THEN 1 ELSE 0]
(* the message u is a weighted-majority decision for r: rows in the order of G; ties may go either way *)
RECURSIVE ReedSoftOK(_, _, _, _, _, _)
ReedSoftOK(u, r, G, mu, a, x) ==
    IF a > Len(G) THEN TRUE
    ELSE LET d == Weighted(x, r, RowMono(G[a], mu), mu) IN
         /\ (d < 0 => u[a] = 1) /\ (d > 0 => u[a] = 0)
         /\ ReedSoftOK(u, r, G, mu, a + 1, IF u[a] = 1 THEN XorV(x, G[a]) ELSE x)

(* ---- Wagner ---- *)
(* flip the least reliable position of the hard word when its parity is odd *)
WagnerWords(r) == LET v == Hard(r) IN
    IF Wt(v) % 2 = 0 THEN {v}
    ELSE {XorV(v, [j \in 1..Len(r) |-> IF j = p THEN 1 ELSE 0]) : p \in {q \in 1..Len(r) : \A h \in 1..Len(r) : AbsI(r[q]) <= AbsI(r[h])}}

(* ---- successive cancellation, from its definition ---- *)
(* l is a sequence of likelihood pairs <<P(y|0), P(y|1)>> (small integers);  *)
(* known : the decisions u_0 .. u_(i-1) of all n positions.  The i-th        *)
(* decision variable is the likelihood ratio of u_i, all later bits uniform. *)
RECURSIVE LikAux(_, _, _, _)
LikAux(v, l, j, acc) == IF j > Len(v) THEN acc ELSE LikAux(v, l, j + 1, acc * l[j][v[j] + 1])
PolarWord(u) == LET n == Len(u) IN
    [j \in 1..n |-> LET RECURSIVE P(_, _) P(a, acc) == IF a > n THEN acc % 2 ELSE P(a + 1, acc + u[a] * KronBit(a - 1, j - 1)) IN P(1, 0)]
RECURSIVE SumTail(_, _, _)
SumTail(w, i, l) == \* sum of likelihoods of the words of prefix codeword w, free rows i..n (1-based)
    LET n == Len(w) IN
    IF i > n THEN LikAux(w, l, 1, 1)
    ELSE SumTail(w, i + 1, l) + SumTail(XorV(w, [j \in 1..n |-> KronBit(i - 1, j - 1)]), i + 1, l)
SCPair(prefix, l) ==  \* prefix: decisions before position i
    LET n == Len(l) i == Len(prefix) + 1
        w == PolarWord([a \in 1..n |-> IF a < i THEN prefix[a] ELSE 0])
        w1 == XorV(w, [j \in 1..n |-> KronBit(i - 1, j - 1)])
    IN <<SumTail(w, i + 1, l), SumTail(w1, i + 1, l)>>
(* the leading order of the same for likelihoods exp(M l), M large: log-sums become maxima *)
RECURSIVE MaxTail(_, _, _)
MaxTail(w, i, l) == \* l : integers, log-likelihood ratios over M
    LET n == Len(w) IN
    IF i > n THEN Corr(w, l)
    ELSE LET a == MaxTail(w, i + 1, l) b == MaxTail(XorV(w, [j \in 1..n |-> KronBit(i - 1, j - 1)]), i + 1, l) IN IF a > b THEN a ELSE b
SCLead(prefix, l) == \* twice the leading term of the decision variable, in units of M/2
    LET n == Len(l) i == Len(prefix) + 1
        w == PolarWord([a \in 1..n |-> IF a < i THEN prefix[a] ELSE 0])
        w1 == XorV(w, [j \in 1..n |-> KronBit(i - 1, j - 1)])
    IN MaxTail(w, i + 1, l) - MaxTail(w1, i + 1, l)
RECURSIVE ScaleTo(_, _)
ScaleTo(p, lim) == IF p[1] + p[2] <= lim THEN p ELSE ScaleTo(<<p[1] \div 2, p[2] \div 2>>, lim)
(* q : the reported probability of bit 1, in units of 1/20000 *)
ProbOK(p, q) == LET s == ScaleTo(p, 50000) IN AbsI(q * (s[1] + s[2]) - 20000 * s[2]) <= 6 * (s[1] + s[2]) + 40000

(* ---- Berlekamp's algorithm (Lin and Costello), as a state machine ---- *)
(* field elements are integers, p the modulus, s the syndromes S_1 .. S_2t   *)
FInv(a, p) == FPow(a, Pow(2, DegP(p)) - 2, p)
At1(f, j) == IF j \in 1..Len(f) THEN f[j] ELSE 0
(* st: j, sig/disc/deg : sequences indexed from step -1 (index 1) *)
BInit(s) == [j |-> 0, sig |-> <<<<1>>, <<1>>>>, disc |-> <<1, s[1]>>, deg |-> <<0, 0>>]
BPrev(st) == \* step k < j with nonzero discrepancy and the largest k - deg(k)
    LET C == {k \in (-1)..(st.j - 1) : st.disc[k + 2] # 0} IN
    CHOOSE k \in C : \A h \in C : h - st.deg[h + 2] < k - st.deg[k + 2] \/ (h - st.deg[h + 2] = k - st.deg[k + 2] /\ h >= k)
RECURSIVE DiscAux(_, _, _, _, _, _)
DiscAux(sig, s, j, a, p, acc) == IF a > Len(sig) THEN acc ELSE DiscAux(sig, s, j, a + 1, p, acc ^^ (IF j - a + 2 \in 1..Len(s) THEN FMul(sig[a], s[j - a + 2], p) ELSE 0))
BStep(st, s, p) ==
    LET j == st.j dj == st.disc[j + 2] sj == st.sig[j + 2] lj == st.deg[j + 2]
        k == BPrev(st)
        q == FMul(dj, FInv(st.disc[k + 2], p), p)
        l2 == MaxI(lj, st.deg[k + 2] + j - k)
        s2 == IF dj = 0 THEN sj ELSE [a \in 1..(l2 + 1) |-> At1(sj, a) ^^ FMul(q, At1(st.sig[k + 2], a - (j - k)), p)]
        d2 == IF j + 2 > Len(s) THEN 0 ELSE DiscAux(s2, s, j + 1, 1, p, 0)
    IN [j |-> j + 1, sig |-> Append(st.sig, s2), deg |-> Append(st.deg, IF dj = 0 THEN lj ELSE l2), disc |-> Append(st.disc, d2)]
=============================================================================

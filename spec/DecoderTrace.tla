---------------------------- MODULE DecoderTrace ----------------------------
(* Trace specification of the block decoders (C18).                          *)
EXTENDS Decoders, TraceKit
VARIABLES c, i, words
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
vars == <<c, i, words>>
n == S.n
k == S.k
ShapeTo(sh, from, to) == [sh EXCEPT ![Len(sh)] = (@ \div from) * to]
Blocks(x, b) == [a \in 1..(Len(x) \div b) |-> SubSeq(x, (a - 1) * b + 1, a * b)]
OKMsg(u) == Len(u) = k /\ Bit(u)
Enc(u) == VecMat(u, S.G, n)
Best(x) == LET D == {Pop(words[j] ^^ x) : j \in 1..Len(words)} IN CHOOSE d \in D : \A f \in D : d <= f
BestCorr(r) == LET D == {Corr(Unpack(words[j], n), r) : j \in 1..Len(words)} IN CHOOSE d \in D : \A f \in D : d >= f
(* P(u, x, a) : the decision u for the a-th block x is right *)
Each(e, P(_, _, _)) ==
    LET U == Blocks(e.v.d, k) X == Blocks(e.x.d, n) IN
    IF e.v.shape # ShapeTo(e.x.shape, n, k) \/ Len(U) # Len(X) THEN {"shape"}
    ELSE Viol(e.op, \A a \in 1..Len(U) : OKMsg(U[a]) /\ P(U[a], X[a], a))
Within(u, x, w) == Dist(Enc(w), x) <= S.t => u = w
DecOf(q) == IF q > 10000 THEN 1 ELSE 0
RECURSIVE Fill(_, _, _, _)
Fill(frozen, dec, j, acc) ==  \* all n decisions from those of the active positions
    IF j = n THEN acc
    ELSE IF \E f \in 1..Len(frozen) : frozen[f] = j THEN Fill(frozen, dec, j + 1, Append(acc, 0))
    ELSE Fill(frozen, dec, j + 1, Append(acc, dec[Cardinality({h \in 0..j : \A f \in 1..Len(frozen) : frozen[f] # h})]))
Actives == SelectSeq([j \in 1..n |-> j - 1], LAMBDA p : \A f \in 1..Len(S.frozen) : S.frozen[f] # p)
SCBad(e) ==
    LET Q == Blocks(e.v.d, k) L == [a \in 1..(Len(e.l) \div n) |-> SubSeq(e.l, (a - 1) * n + 1, a * n)] D == Blocks(e.dec, k) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(Q) # Len(L) THEN {"shape"}
    ELSE Viol("sc-likelihood", \A a \in 1..Len(Q) :
            LET full == Fill(S.frozen, D[a], 0, <<>>) IN
            \A b \in 1..k : n - Actives[b] - 1 <= 7 => ProbOK(SCPair(SubSeq(full, 1, Actives[b]), L[a]), Q[a][b]))
         \cup Viol("sc-decision", \A a \in 1..Len(Q) : \A b \in 1..k : (Q[a][b] > 10000 => D[a][b] = 1) /\ (Q[a][b] < 10000 => D[a][b] = 0))
(* soft values M l_j with M large; reported in units of M/1000, e.tol the allowance for the lower-order terms *)
SCWideBad(e) ==
    LET Q == Blocks(e.v.d, k) L == Blocks(e.l, n) D == Blocks(e.dec, k) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(Q) # Len(L) THEN {"shape"}
    ELSE Viol("sc-leading-order", \A a \in 1..Len(Q) :
            LET full == Fill(S.frozen, D[a], 0, <<>>) IN
            \A b \in 1..k : n - Actives[b] - 1 <= 7 => AbsI(Q[a][b] - 500 * SCLead(SubSeq(full, 1, Actives[b]), L[a])) <= e.tol)
         \cup Viol("sc-decision", \A a \in 1..Len(Q) : \A b \in 1..k : (Q[a][b] < 0 => D[a][b] = 1) /\ (Q[a][b] > 0 => D[a][b] = 0))
(* sums of word likelihoods : w0[b] over messages with bit b = 0, w1[b] with bit b = 1 *)
RECURSIVE WordProd(_, _, _, _)
WordProd(x, l, j, acc) == IF j > Len(x) THEN acc ELSE WordProd(x, l, j + 1, acc * l[j][x[j] + 1])
RECURSIVE SumIdx(_, _, _, _)
SumIdx(f, b, v, j) == IF j > Len(f) THEN 0 ELSE (IF ((j - 1) \div Pow(2, b - 1)) % 2 = v THEN f[j] ELSE 0) + SumIdx(f, b, v, j + 1)
LBlocks(e) == [a \in 1..(Len(e.l) \div n) |-> SubSeq(e.l, (a - 1) * n + 1, a * n)]
AppBad(e) ==
    LET Q == Blocks(e.v.d, k) L == LBlocks(e) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(Q) # Len(L) THEN {"shape"}
    ELSE Viol("posterior", \A a \in 1..Len(Q) : LET f == TLCEval([j \in 1..Len(words) |-> WordProd(Unpack(words[j], n), L[a], 1, 1)]) IN
             \A b \in 1..k : ProbOK(<<SumIdx(f, b, 0, 1), SumIdx(f, b, 1, 1)>>, Q[a][b]))
AppHardBad(e) ==
    LET U == Blocks(e.v.d, k) L == LBlocks(e) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(U) # Len(L) THEN {"shape"}
    ELSE Viol("decision", \A a \in 1..Len(U) : LET f == TLCEval([j \in 1..Len(words) |-> WordProd(Unpack(words[j], n), L[a], 1, 1)]) IN
             \A b \in 1..k : LET p == <<SumIdx(f, b, 0, 1), SumIdx(f, b, 1, 1)>> IN (p[1] > p[2] => U[a][b] = 0) /\ (p[2] > p[1] => U[a][b] = 1))
(* reliabilities eps d_j with eps small: a message bit b has L-value            *)
(*   ln (sum over u_b = 0 of exp(-eps d.x(u))) - (the same over u_b = 1)         *)
(* whose first order is eps times the difference of the mean costs; summed over  *)
(* all messages the mean of position j differs only if x_j = u_b throughout.     *)
ColIs(b, j) == \A a \in 1..k : S.G[a][j] = IF a = b THEN 1 ELSE 0
FirstOrder(b, d) == Sum([j \in 1..n |-> IF ColIs(b, j) THEN d[j] ELSE 0])
TinyBad(e) ==
    LET Q == Blocks(e.v.d, k) L == Blocks(e.l, n) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(Q) # Len(L) THEN {"shape"}
    ELSE Viol("first-order", \A a \in 1..Len(Q) : \A b \in 1..k : AbsI(Q[a][b] - 1000 * FirstOrder(b, L[a])) <= 40)
TinyHardBad(e) ==
    LET U == Blocks(e.v.d, k) L == Blocks(e.l, n) IN
    IF e.v.shape # ShapeTo(e.sh, n, k) \/ Len(U) # Len(L) THEN {"shape"}
    ELSE Viol("decision", \A a \in 1..Len(U) : \A b \in 1..k : LET f == FirstOrder(b, L[a]) IN (f > 0 => U[a][b] = 0) /\ (f < 0 => U[a][b] = 1))
CallBad(e) ==
    CASE e.op = "badshape" -> Viol("bad-size-accepted", Refused(e))
      [] ~e.ok -> {"raised"}
      [] e.op = "facts" -> {}
      [] e.op = "nearest" -> Each(e, LAMBDA u, x, a : Dist(Enc(u), x) = Best(Pack(x)))
      [] e.op = "soft-ml" -> Each(e, LAMBDA u, x, a : Corr(Enc(u), x) = BestCorr(x))
      [] e.op = "wagner-ml" -> Each(e, LAMBDA u, x, a : LET w == Enc(u) W == WagnerWords(x) IN Wt(w) % 2 = 0 /\ Corr(w, x) = Corr(CHOOSE y \in W : TRUE, x))
      [] e.op = "bounded" -> LET M == Blocks(e.w, k) IN Each(e, LAMBDA u, x, a : Within(u, x, M[a]))
      [] e.op = "reed-soft" -> Each(e, LAMBDA u, x, a : ReedSoftOK(u, x, S.G, S.mu, 1, Hard(x)))
      [] e.op = "app" -> AppBad(e)
      [] e.op = "app-hard" -> AppHardBad(e)
      [] e.op = "app-tiny" -> TinyBad(e)
      [] e.op = "tiny-hard" -> TinyHardBad(e)
      [] e.op = "sc-soft" -> SCBad(e)
      [] e.op = "sc-wide" -> SCWideBad(e)
      [] e.op = "sc-hard" -> LET D == Blocks(e.dec, k) IN Each(e, LAMBDA u, x, a : u = D[a])
      \* soft inputs of large equal magnitude are hard decisions
      [] e.op = "noiseless" -> LET M == Blocks(e.w, k) IN Each(e, LAMBDA u, x, a : Enc(M[a]) = x => u = M[a])
Init == c \in 1..Len(Cases) /\ i = 0 /\ words = <<>>
Done == (i + 1 = Len(Ev)) => Accept(c)
Next == /\ i < Len(Ev)
        /\ LET bad == CallBad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ Done /\ i' = i + 1 /\ c' = c
        /\ IF E.op = "facts" THEN words' = Span(PackRows(S.G)) ELSE UNCHANGED words
=============================================================================

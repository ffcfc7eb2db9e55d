----------------------------- MODULE LinearCode -----------------------------
(* Binary vectors, matrices and linear codes.                                *)
(* A vector is a sequence of bits; a matrix a sequence of rows.  For         *)
(* enumeration, vectors of length <= 30 are packed into integers, first bit  *)
(* least significant.                                                        *)
EXTENDS Words, Bitwise, TLC

Bit(v) == \A j \in 1..Len(v) : v[j] \in {0, 1}
RECURSIVE DotAux(_, _, _, _)
DotAux(u, v, j, acc) == IF j > Len(u) THEN acc % 2 ELSE DotAux(u, v, j + 1, acc + u[j] * v[j])
Dot2(u, v) == DotAux(u, v, 1, 0)                     \* inner product over GF(2)
XorV(u, v) == [j \in 1..Len(u) |-> (u[j] + v[j]) % 2]
Wt(v) == Sum(v)
Zero(n) == [j \in 1..n |-> 0]
RECURSIVE VecMatAux(_, _, _, _)
VecMatAux(u, M, j, acc) == IF j > Len(u) THEN acc ELSE VecMatAux(u, M, j + 1, IF u[j] = 1 THEN XorV(acc, M[j]) ELSE acc)
VecMat(u, M, n) == VecMatAux(u, M, 1, Zero(n))       \* u M, M with n columns
Syndrome(H, r) == [j \in 1..Len(H) |-> Dot2(H[j], r)]  \* r H^T
Col(M, j) == [a \in 1..Len(M) |-> M[a][j]]
RECURSIVE PackAux(_, _, _)
PackAux(v, j, acc) == IF j = 0 THEN acc ELSE PackAux(v, j - 1, 2 * acc + v[j])
Pack(v) == PackAux(v, Len(v), 0)                     \* LSB first
Unpack(x, n) == [j \in 1..n |-> (x \div Pow(2, j - 1)) % 2]
RECURSIVE PopAux(_, _)
PopAux(x, acc) == IF x = 0 THEN acc ELSE PopAux(x \div 2, acc + (x % 2))
PopSlow(x) == PopAux(x, 0)
(* the same count by adding in parallel fields of 2, 4, 8, ... bits (x < 2^30) *)
Pop(x) == LET a == x - ((x \div 2) & 1431655765)
              b == (a & 858993459) + ((a \div 4) & 858993459)
              d == (b + (b \div 16)) & 252645135
              e == d + (d \div 65536)
          IN (e + (e \div 256)) & 63
(* vectors of any length as sequences of packed chunks of 30 bits *)
PackC(v) == [a \in 1..((Len(v) + 29) \div 30) |-> Pack(SubSeq(v, 30 * (a - 1) + 1, IF 30 * a < Len(v) THEN 30 * a ELSE Len(v)))]
XorC(u, v) == TLCEval([a \in 1..Len(u) |-> u[a] ^^ v[a]])
RECURSIVE PopCAux(_, _, _)
PopCAux(u, a, acc) == IF a > Len(u) THEN acc ELSE PopCAux(u, a + 1, acc + Pop(u[a]))
PopC(u) == PopCAux(u, 1, 0)
PackRows(M) == [a \in 1..Len(M) |-> Pack(M[a])]
(* all sums of subsets of the rows, in message order (first row = bit 0) *)
RECURSIVE SpanAux(_, _, _)
SpanAux(rows, j, acc) == IF j > Len(rows) THEN acc
                         ELSE SpanAux(rows, j + 1, acc \o [a \in 1..Len(acc) |-> acc[a] ^^ rows[j]])
Span(rows) == SpanAux(rows, 1, <<0>>)
RECURSIVE SpanCAux(_, _, _)
SpanCAux(rows, j, acc) == IF j > Len(rows) THEN acc
                          ELSE SpanCAux(rows, j + 1, TLCEval(acc \o [a \in 1..Len(acc) |-> XorC(acc[a], rows[j])]))
SpanC(M) == SpanCAux([a \in 1..Len(M) |-> PackC(M[a])], 1, <<PackC(Zero(Len(M[1])))>>)
(* reduce x by a list of vectors with distinct leading bits, then insert it *)
RECURSIVE ReduceV(_, _, _)
Lead(x) == CHOOSE b \in 0..30 : Pow(2, b) <= x /\ (b = 30 \/ x < Pow(2, b + 1))
ReduceV(x, basis, j) == IF j > Len(basis) THEN x
                        ELSE ReduceV(IF (x ^^ basis[j]) < x THEN x ^^ basis[j] ELSE x, basis, j + 1)
RECURSIVE BasisAux(_, _, _)
InsertDesc(b, x) == LET hi == SelectSeq(b, LAMBDA y : y > x) lo == SelectSeq(b, LAMBDA y : y <= x) IN hi \o <<x>> \o lo
BasisAux(xs, j, basis) == IF j > Len(xs) THEN basis
                          ELSE LET y == ReduceV(xs[j], basis, 1) IN
                               BasisAux(xs, j + 1, IF y = 0 THEN basis ELSE InsertDesc(basis, y))
BasisOf(xs) == BasisAux(xs, 1, <<>>)
RankOf(xs) == Len(BasisOf(xs))
InSpan(x, basis) == ReduceV(x, basis, 1) = 0
(* rank of a matrix of any width, by elimination on sequences *)
FirstOne(v) == IF \E j \in 1..Len(v) : v[j] = 1 THEN CHOOSE j \in 1..Len(v) : v[j] = 1 /\ \A h \in 1..(j - 1) : v[h] = 0 ELSE 0
RECURSIVE ElimAux(_, _, _)
ReduceS(v, basis) == LET RECURSIVE R(_, _)
                         R(w, j) == IF j > Len(basis) THEN w
                                    ELSE R(IF w[FirstOne(basis[j])] = 1 THEN XorV(w, basis[j]) ELSE w, j + 1)
                     IN R(v, 1)
ElimAux(M, j, basis) == IF j > Len(M) THEN basis
                        ELSE LET y == ReduceS(M[j], basis) IN
                             ElimAux(M, j + 1, IF FirstOne(y) = 0 THEN basis ELSE Append(basis, y))
Elim(M) == ElimAux(M, 1, <<>>)
RankSlow(M) == Len(Elim(M))
(* the same on packed chunks: eliminate the last one of the first row from the others *)
LowBit(x) == x - (x & (x - 1))
RECURSIVE RankCAux(_, _)
RankCAux(rows, acc) ==
    IF rows = <<>> THEN acc
    ELSE LET r == rows[1]
             L == Len(r)
             nz == {a \in 1..L : r[a] # 0}
         IN IF nz = {} THEN RankCAux(Tail(rows), acc)
            ELSE LET a == CHOOSE b \in nz : TRUE
                     b == LowBit(r[a])
                 IN RankCAux(TLCEval([j \in 1..(Len(rows) - 1) |-> IF (rows[j + 1][a] & b) # 0 THEN XorC(rows[j + 1], r) ELSE rows[j + 1]]), acc + 1)
PackRowsC(M) == TLCEval([a \in 1..Len(M) |-> TLCEval(PackC(M[a]))])
Rank(M) == RankCAux(PackRowsC(M), 0)
RECURSIVE DotCAux(_, _, _, _)
DotCAux(u, v, a, acc) == IF a > Len(u) THEN acc % 2 ELSE DotCAux(u, v, a + 1, acc + Pop(u[a] & v[a]))
Orthogonal(M, N) == LET A == PackRowsC(M) B == PackRowsC(N) IN \A a \in 1..Len(A) : \A b \in 1..Len(B) : DotCAux(A[a], B[b], 1, 0) = 0

------------------------------------------------------------------------------
(* Weight and coset structure, from the definitions. *)
RECURSIVE CountAux(_, _, _)
CountAux(ws, j, acc) == IF j > Len(ws) THEN acc ELSE CountAux(ws, j + 1, [acc EXCEPT ![Pop(ws[j]) + 1] = @ + 1])
WeightDist(ws, n) == CountAux(ws, 1, Zero(n + 1))
RECURSIVE CountCAux(_, _, _)
CountCAux(ws, j, acc) == IF j > Len(ws) THEN acc ELSE CountCAux(ws, j + 1, [acc EXCEPT ![PopC(ws[j]) + 1] = @ + 1])
WeightDistC(ws, n) == CountCAux(ws, 1, Zero(n + 1))
(* The same from the columns of a check matrix with m rows: count, for every *)
(* partial syndrome, the subsets of the first j columns by size.             *)
RECURSIVE SynWDAux(_, _, _, _)
SynWDAux(cols, j, nn, f) ==
    IF j > Len(cols) THEN f[0]
    ELSE SynWDAux(cols, j + 1, nn, TLCEval([s \in DOMAIN f |->
            LET g == f[s ^^ cols[j]] IN [w \in 1..(nn + 1) |-> f[s][w] + IF w > 1 THEN g[w - 1] ELSE 0]]))
SynWD(cols, m) == LET nn == Len(cols) IN
    SynWDAux(cols, 1, nn, [s \in 0..(Pow(2, m) - 1) |-> [w \in 1..(nn + 1) |-> IF s = 0 /\ w = 1 THEN 1 ELSE 0]])
(* least size of a nonempty set of columns that adds to zero *)
RECURSIVE SynMinAux(_, _, _)
SynMinAux(cols, j, f) ==
    IF j > Len(cols) THEN f[0]
    ELSE SynMinAux(cols, j + 1, TLCEval([s \in DOMAIN f |->
            LET g == IF s = cols[j] THEN 1 ELSE f[s ^^ cols[j]] + 1 IN IF g < f[s] THEN g ELSE f[s]]))
SynMin(cols, m) == SynMinAux(cols, 1, [s \in 0..(Pow(2, m) - 1) |-> 1000000])
MinDist(ws) == LET nz == {Pop(ws[j]) : j \in 1..Len(ws)} \ {0} IN CHOOSE d \in nz : \A e \in nz : d <= e
(* coset weights: least number of columns of H that add to the syndrome *)
RECURSIVE CosetAux(_, _, _, _)
CosetAux(cols, wt, front, w) ==      \* wt : function from syndromes reached to weights
    IF front = {} THEN wt
    ELSE LET nxt == {s ^^ h : s \in front, h \in cols} \ DOMAIN wt IN
         CosetAux(cols, [s \in (DOMAIN wt \cup nxt) |-> IF s \in nxt THEN w + 1 ELSE wt[s]], nxt, w + 1)
CosetWeights(cols) == CosetAux(cols, [s \in {0} |-> 0], {0}, 0)
HistOf(f, n) == [w \in 1..(n + 1) |-> Cardinality({s \in DOMAIN f : f[s] = w - 1})]
=============================================================================

------------------------------ MODULE Families ------------------------------
(* Definitions of the named families of block codes.  S is a session with    *)
(* the reported matrices (S.G, S.H, S.n, S.k, S.m), d the definition.        *)
EXTENDS Gf2
LOCAL INSTANCE SequencesExt
ViolF(name, ok) == IF ok THEN {} ELSE {name}
Cols(M, n) == {Col(M, j) : j \in 1..n}
Columns(M, n) == [j \in 1..n |-> Col(M, j)]
AllNonzeroOnce(M, n, r) == n = Pow(2, r) - 1 /\ Cols(M, n) = {v \in [1..r -> {0, 1}] : v # Zero(r)}
SameSpan(A, B) == Rank(A) = Rank(B) /\ Rank(A \o B) = Rank(A)
EvenRows(M) == \A a \in 1..Len(M) : Wt(M[a]) % 2 = 0
Puncture(M) == [a \in 1..Len(M) |-> SubSeq(M[a], 1, Len(M[a]) - 1)]

(* cyclic codes: d.g, d.h coefficient sequences, d.sys *)
CyclicBad(S, d) ==
    LET n == S.n k == S.k m == S.m IN
    ViolF("g-times-h", MulS(d.g, d.h) = Trim(XnPlus1(n)))
    \cup ViolF("degrees", DegS(d.g) = m /\ DegS(d.h) = k)
    \cup ViolF("rows-not-multiples", \A a \in 1..k : ModS(S.G[a], d.g) = <<>>)
    \cup ViolF("generator-rows", IF d.sys THEN \A a \in 1..k : \A b \in 1..k : S.G[a][m + b] = (IF a = b THEN 1 ELSE 0)
                                 ELSE \A a \in 1..k : Trim(S.G[a]) = ShiftS(Trim(d.g), a - 1))
    \cup ViolF("shift-not-codeword", \A a \in 1..k : LET r == S.G[a]
                                                        sh == [j \in 1..n |-> r[IF j = 1 THEN n ELSE j - 1]]
                                                    IN \A b \in 1..m : Dot2(S.H[b], sh) = 0)
(* BCH *)
BoseUnion(mu, delta) == UNION {Cyclotomic(x, Pow(2, mu) - 1) : x \in 1..(delta - 1)}
IsBose(mu, delta) == LET nn == Pow(2, mu) - 1 IN delta \in 2..nn /\ (delta % nn) \notin BoseUnion(mu, delta)
BCHBad(S, d) ==
    LET nn == Pow(2, d.mu) - 1 IN
    ViolF("length", S.n = nn)
    \cup ViolF("alpha-not-primitive", OrderF(2, d.modulus) = nn)
    \cup ViolF("bch-zeros", \A e \in 1..(d.delta - 1) : EvalF(d.g, FPow(2, e, d.modulus), d.modulus) = 0)
    \cup ViolF("bch-degree", DegS(d.g) = Cardinality(BoseUnion(d.mu, d.delta)))
    \cup CyclicBad(S, d)
(* polar: rows of the Kronecker power *)
KronBit(a, j) == IF (a & j) = j THEN 1 ELSE 0
PolarBad(S, d) ==
    LET n == Pow(2, d.mu)
        active == SelectSeq([j \in 1..n |-> j - 1], LAMBDA x : \A f \in 1..Len(d.frozen) : d.frozen[f] # x)
    IN ViolF("length", S.n = n)
       \cup ViolF("polar-rows", S.G = [a \in 1..Len(active) |-> [j \in 1..n |-> KronBit(active[a], j - 1)]])
(* Reed-Muller: rows are the monomials of degree at most rho, highest first *)
BitOf(x, b) == (x \div Pow(2, b)) % 2
MonoAt(I, x) == IF \A b \in I : BitOf(x, b) = 1 THEN 1 ELSE 0
MonoRow(I, mu) == [x \in 1..Pow(2, mu) |-> MonoAt(I, x - 1)]
Monos(rho, mu) == {I \in SUBSET (0..(mu - 1)) : Cardinality(I) <= rho}
(* the monomial a row is: its variables are those bits set at every one of its points *)
RowMono(r, mu) == {b \in 0..(mu - 1) : \A x \in 1..Len(r) : r[x] = 1 => BitOf(x - 1, b) = 1}
RMBad(S, d) ==
    LET I == [a \in 1..S.k |-> RowMono(S.G[a], d.mu)] IN
    ViolF("length", S.n = Pow(2, d.mu))
    \cup ViolF("rm-rows-monomials", \A a \in 1..S.k : S.G[a] = MonoRow(I[a], d.mu))
    \cup ViolF("rm-monomials", {I[a] : a \in 1..S.k} = Monos(d.rho, d.mu) /\ S.k = Cardinality(Monos(d.rho, d.mu)))
    \cup ViolF("rm-order", \A a \in 1..(S.k - 1) : Cardinality(I[a]) >= Cardinality(I[a + 1]))
(* one partition per row; every block of a partition sums to the message bit of its row *)
ReedBad(S, d, parts) ==
    LET I == [a \in 1..S.k |-> RowMono(S.G[a], d.mu)]
        Par(row, blk) == LET RECURSIVE A(_, _) A(j, acc) == IF j > Len(blk) THEN acc % 2 ELSE A(j + 1, acc + row[blk[j] + 1]) IN A(1, 0)
    IN ViolF("reed-count", Len(parts) = S.k)
       \cup ViolF("reed-not-partition", \A a \in 1..Len(parts) :
                /\ Sum([b \in 1..Len(parts[a]) |-> Len(parts[a][b])]) = S.n
                /\ UNION {{parts[a][b][j] : j \in 1..Len(parts[a][b])} : b \in 1..Len(parts[a])} = 0..(S.n - 1))
       \cup ViolF("reed-checksum", \A a \in 1..Len(parts) : \A b \in 1..Len(parts[a]) : \A r \in 1..S.k :
                Cardinality(I[r]) <= Cardinality(I[a]) => Par(S.G[r], parts[a][b]) = IF r = a THEN 1 ELSE 0)
(* lexicode: greedy in lexicographic (most significant first) order *)
RECURSIVE GreedyAux(_, _, _, _)
GreedyAux(x, top, d, acc) == IF x = top THEN acc
    ELSE GreedyAux(x + 1, top, d, IF \A j \in 1..Len(acc) : Pop(acc[j] ^^ x) >= d THEN Append(acc, x) ELSE acc)
Greedy(n, d) == GreedyAux(1, Pow(2, n), d, <<0>>)
Rev(v) == [j \in 1..Len(v) |-> v[Len(v) + 1 - j]]
(* the same code from its linear structure: the words nearer than d to the     *)
(* code so far are excluded, and the smallest other word is the next generator *)
RECURSIVE Balls(_, _, _)
Balls(nn, w, acc) == IF w = 0 THEN acc ELSE Balls(nn, w - 1, TLCEval(acc \cup {x ^^ Pow(2, j) : x \in acc, j \in 0..(nn - 1)}))
RECURSIVE LexiGens(_, _, _, _)
LexiGens(x, top, ex, acc) ==
    IF \A y \in x..(top - 1) : y \in ex THEN acc
    ELSE LET g == CHOOSE y \in x..(top - 1) : y \notin ex /\ \A z \in x..(y - 1) : z \in ex
         IN LexiGens(g + 1, top, TLCEval(ex \cup {y ^^ g : y \in ex}), Append(acc, g))
LexiBasis(nn, d) == LexiGens(1, Pow(2, nn), TLCEval(Balls(nn, d - 1, {0})), <<>>)
LexiBad(S, d) == LET g == Greedy(S.n, d.d)
                     w == Span([a \in 1..S.k |-> Pack(Rev(S.G[a]))])
                 IN ViolF("length", S.n = d.n)
                    \cup ViolF("lexicode-words", {w[j] : j \in 1..Len(w)} = {g[j] : j \in 1..Len(g)} /\ Len(w) = Len(g))
(* a row of Pascal's triangle modulo p *)
BinRow(nn, p) == LET RECURSIVE T(_, _) T(j, v) == IF j > nn THEN v ELSE T(j + 1, TLCEval([w \in 1..(nn + 1) |-> (v[w] + IF w > 1 THEN v[w - 1] ELSE 0) % p]))
                 IN T(1, [w \in 1..(nn + 1) |-> IF w = 1 THEN 1 ELSE 0])
(* Cordaro-Wagner: among all (n,2) codes, given by how many columns of each kind *)
TwoDim(a, b, cc, n) == [j \in 1..n |-> IF j <= a THEN <<1, 0>> ELSE IF j <= a + b THEN <<0, 1>> ELSE IF j <= a + b + cc THEN <<1, 1>> ELSE <<0, 0>>]
(* coset-leader distribution of a two-dimensional code, from its four codewords *)
CldOf(cols, n) == LET r1 == Pack([j \in 1..n |-> cols[j][1]]) r2 == Pack([j \in 1..n |-> cols[j][2]])
                      w4 == {0, r1, r2, r1 ^^ r2}
                      all == 0..(Pow(2, n) - 1)
                      W(x) == CHOOSE d \in {Pop(x ^^ y) : y \in w4} : \A y \in w4 : d <= Pop(x ^^ y)
                  IN \* each coset has 4 words: count cosets by minimum weight
                     [w \in 1..(n + 1) |-> Cardinality({x \in all : W(x) = w - 1}) \div 4]
(* the same by how many ones a word has over each kind of column: a columns  *)
(* 10, b columns 01, c columns 11 (columns 00 only multiply by (1 + x))      *)
BinTab == LET RECURSIVE T(_, _) T(j, acc) == IF j > 31 THEN acc
              ELSE T(j + 1, Append(acc, TLCEval([x \in 1..32 |-> IF x = 1 THEN 1 ELSE IF x > j THEN 0 ELSE acc[j - 1][x - 1] + acc[j - 1][x]])))
          IN T(2, <<[x \in 1..32 |-> IF x = 1 THEN 1 ELSE 0]>>)
Min4(p, q, r, t) == LET x == IF p < q THEN p ELSE q y == IF r < t THEN r ELSE t IN IF x < y THEN x ELSE y
CldBy(a, b, c, z, Bn) ==
    LET RECURSIVE L(_, _, _, _)
        L(i, j, l, acc) ==
            IF i > a THEN acc
            ELSE IF j > b THEN L(i + 1, 0, 0, acc)
            ELSE IF l > c THEN L(i, j + 1, 0, acc)
            ELSE L(i, j, l + 1, [acc EXCEPT ![1 + Min4(i + j + l, a - i + j + c - l, i + b - j + c - l, a - i + b - j + l)] =
                                    @ + Bn[a + 1][i + 1] * Bn[b + 1][j + 1] * Bn[c + 1][l + 1]])
        core == L(0, 0, 0, Zero(a + b + c + z + 1))
        RECURSIVE Z(_, _)
        Z(y, v) == IF y = 0 THEN v ELSE Z(y - 1, TLCEval([w \in 1..Len(v) |-> v[w] + IF w > 1 THEN v[w - 1] ELSE 0]))
    IN Z(z, [w \in 1..Len(core) |-> core[w] \div 4])
LexGE(u, v) == u = v \/ \E j \in 1..Len(u) : u[j] > v[j] /\ \A h \in 1..(j - 1) : u[h] = v[h]
CWBad(S, d) ==
    LET n == d.n IN
    ViolF("length", S.n = n /\ S.k = 2)
    \cup (IF ~d.opt THEN {} ELSE
          LET Bn == TLCEval(BinTab)
              Cnt(v) == Cardinality({j \in 1..n : Col(S.G, j) = v})
              a0 == Cnt(<<1, 0>>) b0 == Cnt(<<0, 1>>) c0 == Cnt(<<1, 1>>)
              mine == TLCEval(CldBy(a0, b0, c0, n - a0 - b0 - c0, Bn)) IN
          ViolF("not-bsc-optimal", \A a \in 1..n : \A b \in 1..a : \A cc \in 0..b :
                \* all columns in use, or (small lengths) any number of zero columns
                (a + b + cc = n \/ (a + b + cc <= n /\ n <= 8)) => LexGE(mine, CldBy(a, b, cc, n - a - b - cc, Bn))))
HammingBad(S, d) ==
    IF ~d.ext THEN ViolF("hamming-columns", S.m = d.mu /\ AllNonzeroOnce(S.H, S.n, d.mu))
    ELSE ViolF("length", S.n = Pow(2, d.mu) /\ S.m = d.mu + 1)
         \cup ViolF("extended-parity", EvenRows(S.G))
         \* dropping the overall parity bit leaves a code orthogonal to a simplex code: min distance 3 means Hamming
         \cup ViolF("extended-columns", LET C == Columns(S.H, S.n) IN \A a \in 1..S.n, b \in 1..S.n : a = b \/ C[a] # C[b])
         \cup ViolF("allone-check", \A a \in 1..S.k : Dot2(S.G[a], [j \in 1..S.n |-> 1]) = 0)
SimplexBad(S, d) ==
    IF ~d.ext THEN ViolF("simplex-columns", S.k = d.mu /\ AllNonzeroOnce(S.G, S.n, d.mu))
    ELSE ViolF("length", S.n = Pow(2, d.mu) /\ S.k = d.mu + 1)
         \* dual of the extended Hamming code: contains the all-one word, columns distinct
         \cup ViolF("extended-columns", LET C == Columns(S.G, S.n) IN \A a \in 1..S.n, b \in 1..S.n : a = b \/ C[a] # C[b])
         \cup ViolF("contains-allone", \A b \in 1..S.m : Wt(S.H[b]) % 2 = 0)
RepBad(S, d) == ViolF("repetition", S.k = 1 /\ S.n = d.n /\ S.G = <<[j \in 1..d.n |-> 1]>>)
SPCBad(S, d) == ViolF("parity-check", S.m = 1 /\ S.n = d.n /\ S.H = <<[j \in 1..d.n |-> 1]>>)
GolayBad(S, d) == ViolF("golay-size", S.k = 12 /\ S.n = IF d.ext THEN 24 ELSE 23)

(* ---- members too large to write their matrices down: facts and sampled calls ---- *)
OnesOf(v) == SelectSeq([j \in 1..Len(v) |-> j], LAMBDA j : v[j] = 1)
XorAll(xs) == FoldLeft(LAMBDA p, q : p ^^ q, 0, xs)
Picked(C, v) == LET t == OnesOf(v) IN [a \in 1..Len(t) |-> C[t[a]]]
(* C : the columns of the check matrix as integers; words: messages and codewords *)
HammingColsBad(e) ==
    LET nn == Pow(2, e.mu) - (IF e.ext THEN 0 ELSE 1) IN
    ViolF("length", Len(e.C) = nn)
    \cup ViolF("hamming-columns", IF e.ext THEN Cardinality({e.C[j] : j \in 1..Len(e.C)}) = nn /\ \A j \in 1..Len(e.C) : e.C[j] \in 1..(2 * Pow(2, e.mu) - 1)
                                  ELSE {e.C[j] : j \in 1..Len(e.C)} = 1..nn)
    \cup ViolF("encode", \A w \in 1..Len(e.words) : LET v == e.words[w] IN
                 Len(v) = nn /\ XorAll(Picked(e.C, v)) = 0 /\ (e.ext => Len(OnesOf(v)) % 2 = 0))
(* C : the columns of the generator matrix as integers, msgs as integers *)
SimplexColsBad(e) ==
    LET nn == Pow(2, e.mu) - (IF e.ext THEN 0 ELSE 1) Cs == {e.C[j] : j \in 1..Len(e.C)} IN
    ViolF("length", Len(e.C) = nn)
    \cup ViolF("simplex-columns", IF e.ext THEN Cardinality(Cs) = nn /\ \E f \in 1..(2 * nn - 1) : \A x \in Cs : Pop(x & f) % 2 = 1
                                  ELSE Cs = 1..nn)
    \cup ViolF("encode", \A w \in 1..Len(e.words) : e.words[w] = [j \in 1..nn |-> Pop(e.C[j] & e.msgs[w]) % 2])
PolarEncBad(e) ==
    LET n == Pow(2, e.mu)
        Fz == {e.frozen[f] : f \in 1..Len(e.frozen)}
        active == SelectSeq([j \in 1..n |-> j - 1], LAMBDA x : x \notin Fz)
        on == SelectSeq([a \in 1..Len(active) |-> IF e.x[a] = 1 THEN active[a] ELSE -1], LAMBDA x : x >= 0)
    IN ViolF("encode", Len(e.x) = Len(active)
             /\ e.v = [j \in 1..n |-> Len(SelectSeq(on, LAMBDA a : (a & (j - 1)) = j - 1)) % 2])
ReedPartBad(S, e) ==
    LET mine == Cardinality(RowMono(S.G[e.a], S.def.mu)) IN
    ViolF("reed-not-partition", Sum([b \in 1..Len(e.v) |-> Len(e.v[b])]) = S.n /\ UNION {{e.v[b][j] : j \in 1..Len(e.v[b])} : b \in 1..Len(e.v)} = 0..(S.n - 1))
    \cup ViolF("reed-checksum", \A r \in 1..S.k : Cardinality(RowMono(S.G[r], S.def.mu)) <= mine =>
               LET row == S.G[r] IN \A b \in 1..Len(e.v) : Len(SelectSeq(e.v[b], LAMBDA j : row[j + 1] = 1)) % 2 = IF r = e.a THEN 1 ELSE 0)
(* remainder modulo a polynomial given as an integer of degree d *)
RemI(y, gi, d) == LET top == Pow(2, d) IN FoldLeft(LAMBDA r, b : LET s == 2 * r + b IN IF s >= top THEN s ^^ gi ELSE s, 0, Rev(y))
RemOf(y, g) == IF Len(g) <= 29 THEN RemI(y, Pack(g), Len(g) - 1) = 0 ELSE ModS(y, g) = <<>>
CycDefBad(e) == ViolF("g-times-h", MulS(e.g, e.h) = XnPlus1(e.len)) \cup ViolF("degrees", Len(e.g) - 1 = e.m /\ Len(e.h) - 1 = e.k /\ e.k + e.m = e.len)
CycEncBad(e) == ViolF("rows-not-multiples", Len(e.v) = e.len /\ RemOf(e.v, e.g))
                \cup ViolF("encode", IF e.sys THEN SubSeq(e.v, Len(e.g), e.len) = e.x ELSE Trim(e.v) = MulS(Trim(e.x), e.g))
XorCols(C, y) == FoldLeft(LAMBDA p, q : [a \in 1..Len(q) |-> p[a] ^^ q[a]], [a \in 1..Len(C[1]) |-> 0], Picked(C, y))
CycColsBad(e) == ViolF("check-matrix", Len(e.C) = e.len)
                 \cup ViolF("syndrome", \A a \in 1..Len(e.words) : XorCols(e.C, e.words[a]) = e.syn[a])
                 \cup ViolF("syndrome-zero", \A a \in 1..Len(e.words) : (\A b \in 1..Len(e.syn[a]) : e.syn[a][b] = 0) <=> RemOf(e.words[a], e.g))
CycInvBad(e) == IF RemOf(e.y, e.g) THEN (IF ~e.ok THEN {"raised"} ELSE ViolF("inverse", IF e.sys THEN e.v = SubSeq(e.y, Len(e.g), e.len) ELSE Len(e.v) = e.k /\ MulS(Trim(e.v), e.g) = Trim(e.y)))
                ELSE ViolF("non-codeword-accepted", ~e.ok /\ e.refused)
FamilyBad(S, d) ==
    CASE d.t = "hamming" -> HammingBad(S, d)
      [] d.t = "simplex" -> SimplexBad(S, d)
      [] d.t = "golay" -> GolayBad(S, d)
      [] d.t = "rep" -> RepBad(S, d)
      [] d.t = "spc" -> SPCBad(S, d)
      [] d.t = "cw" -> CWBad(S, d)
      [] d.t = "rm" -> RMBad(S, d)
      [] d.t = "bch" -> BCHBad(S, d)
      [] d.t = "polar" -> PolarBad(S, d)
      [] d.t = "lexi" -> LexiBad(S, d)
FamilyEventBad(S, e) ==
    CASE e.op = "reed" -> ReedBad(S, S.def, e.v)
      [] e.op = "attr" -> ViolF(e.name, e.v = e.x)
      [] e.op = "spc-weights" -> ViolF("codeword-weights", LET R == BinRow(e.len, e.p) IN e.v = [w \in 1..(e.len + 1) |-> IF w % 2 = 1 THEN R[w] ELSE 0])
      [] e.op = "rep-cosets" -> ViolF("coset-weights", LET R == BinRow(e.len, e.p) IN
                                     /\ Len(e.v) = e.len + 1
                                     /\ \A w \in 0..e.len : IF 2 * w < e.len THEN e.v[w + 1] = R[w + 1]
                                                           ELSE IF 2 * w = e.len THEN (2 * e.v[w + 1]) % e.p = R[w + 1] ELSE e.v[w + 1] = 0)
      [] e.op = "rep-covering" -> ViolF("covering-radius", e.v = e.len \div 2)
      [] e.op = "hamming-cols" -> HammingColsBad(e)
      [] e.op = "simplex-cols" -> SimplexColsBad(e)
      [] e.op = "polar-encode" -> PolarEncBad(e)
      [] e.op = "polar-row" -> ViolF("polar-rows", LET Fz == {e.frozen[f] : f \in 1..Len(e.frozen)}
                                                        act == SelectSeq([j \in 1..Pow(2, e.mu) |-> j - 1], LAMBDA x : x \notin Fz)
                                                    IN e.v = [j \in 1..Pow(2, e.mu) |-> KronBit(act[e.a], j - 1)])
      [] e.op = "rm-rows" -> RMBad(S, S.def)
      [] e.op = "rm-encode" -> ViolF("encode", e.v = VecMat(e.x, S.G, S.n))
      [] e.op = "reed-part" -> ReedPartBad(S, e)
      [] e.op = "lexi-wide" -> ViolF("lexicode-words", LET B == LexiBasis(e.len, e.d) IN
                                     Len(e.v) = Len(B) /\ RankOf(e.v) = Len(B) /\ RankOf(e.v \o B) = Len(B))
      [] e.op = "bch-wide" -> ViolF("alpha-not-primitive", OrderF(2, e.modulus) = Pow(2, e.mu) - 1)
                              \cup ViolF("bch-zeros", \A j \in 1..(e.delta - 1) : EvalF(e.g, FPow(2, j, e.modulus), e.modulus) = 0)
                              \cup ViolF("bch-degree", Len(e.g) - 1 = Cardinality(BoseUnion(e.mu, e.delta)))
      [] e.op = "cyc-def" -> CycDefBad(e)
      [] e.op = "cyc-encode" -> CycEncBad(e)
      [] e.op = "cyc-cols" -> CycColsBad(e)
      [] e.op = "poly-g" -> ViolF("generator-polynomial", Trim(e.v) = Trim(S.def.g))
      [] e.op = "poly-h" -> ViolF("check-polynomial", Trim(e.v) = Trim(S.def.h))
=============================================================================

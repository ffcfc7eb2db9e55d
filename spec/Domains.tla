------------------------------- MODULE Domains -------------------------------
(* What may be asked for.  A request names a kind of object (or call) and     *)
(* carries its parameters as a sequence of integers (and sequences of them);  *)
(* Adm says whether the request lies in the documented domain of the kind,    *)
(* and Size gives the sizes that an admitted object then reports.             *)
(* Options are numbered: 0, 1, .. are the documented values in order, larger  *)
(* numbers are values that do not exist.  Reals are <<num, den>> with den = 0 *)
(* standing for "not a number".                                               *)
EXTENDS Poly, FiniteSetsExt
RECURSIVE Bits(_)
Bits(v) == IF v = 0 THEN <<>> ELSE <<v % 2>> \o Bits(v \div 2)
RECURSIVE P2(_), Exp(_, _), Fact(_)
P2(e) == IF e = 0 THEN 1 ELSE 2 * P2(e - 1)
Exp(b, e) == IF e = 0 THEN 1 ELSE b * Exp(b, e - 1)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE Tot(_), TotTo(_, _)
TotTo(s, j) == IF j = 0 THEN 0 ELSE s[j] + TotTo(s, j - 1)
Tot(s) == TotTo(s, Len(s))
InSeq(s) == {s[j] : j \in 1..Len(s)}
Distinct(s) == Cardinality(InSeq(s)) = Len(s)
In(s, lo, hi) == \A j \in 1..Len(s) : lo <= s[j] /\ s[j] < hi
PowerOfTwo(n) == n >= 1 /\ \E e \in 0..20 : n = P2(e)
Log2(n) == CHOOSE e \in 0..20 : n = P2(e)
IsSquare(n) == n >= 0 /\ \E x \in 0..100 : x * x = n
Deg(p) == Len(Bits(p)) - 1
ModXn1(n) == [j \in 1..(n + 1) |-> IF j \in {1, n + 1} THEN 1 ELSE 0]      \* X^n + 1
Divides(g, n) == g # 0 /\ ModS(ModXn1(n), Bits(g)) = PZ
(* cyclotomic cosets modulo N = 2^mu - 1 *)
Coset(i, mu) == {(i * P2(t)) % (P2(mu) - 1) : t \in 0..(mu - 1)}
Roots(mu, delta) == UNION {Coset(i, mu) : i \in 1..(delta - 1)}
Bose(mu, delta) == 2 <= delta /\ delta <= P2(mu) - 1 /\ (delta % (P2(mu) - 1)) \notin Roots(mu, delta)
(* reals *)
Real(r) == r[2] > 0
Unit(r) == Real(r) /\ 0 <= r[1] /\ r[1] <= r[2]
Positive(r) == Real(r) /\ r[1] > 0
(* a law given by integer weights over the total D *)
Law(w, D) == Len(w) >= 1 /\ (\A j \in 1..Len(w) : w[j] >= 0) /\ Tot(w) = D
SameLen(rows) == \A a \in 1..Len(rows) : Len(rows[a]) = Len(rows[1])
(* prefix codes of given lengths *)
Longest(ls) == IF ls = <<>> THEN 0 ELSE Max(InSeq(ls))
Kraft(ls, b) == FoldSet(LAMBDA j, acc : acc + Exp(b, Longest(ls) - ls[j]), 0, 1..Len(ls)) <= Exp(b, Longest(ls))
IsPower(n, b) == \E k \in 1..12 : Exp(b, k) = n
PowerOf(n, b) == CHOOSE k \in 1..12 : Exp(b, k) = n
Tuples(b, k) == [1..k -> 0..(b - 1)]
WordsOK(ws, b) == \A j \in 1..Len(ws) : Len(ws[j]) > 0 /\ In(ws[j], 0, b)
Letters(ws) == 1 + Max(UNION {InSeq(ws[j]) : j \in 1..Len(ws)})
LeastBlock(n, b) == CHOOSE k \in 1..12 : Exp(b, k) >= n /\ (k = 1 \/ Exp(b, k - 1) < n)
Increasing(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
Interleave(y, t) == [j \in 1..(Len(y) + Len(t)) |-> IF j % 2 = 1 THEN y[(j + 1) \div 2] ELSE t[j \div 2]]
(* Fibonacci codewords end at the first pair of ones *)
RECURSIVE FibWords(_)
FibEnd(s) == {j \in 2..Len(s) : s[j] = 1 /\ s[j - 1] = 1}
FibWords(s) == IF s = <<>> THEN 0 ELSE IF FibEnd(s) = {} THEN -1
               ELSE LET j == Min(FibEnd(s)) r == FibWords(SubSeq(s, j + 1, Len(s))) IN IF r < 0 THEN -1 ELSE 1 + r
CeilDiv(a, b) == (a + b - 1) \div b

Adm(q) == LET p == q.p c == q.c IN
  CASE c = "hamming" -> p[1] >= 2
    [] c = "simplexcode" -> p[1] >= 2
    [] c \in {"repetition", "parity"} -> p[1] >= 1
    [] c = "cordaro" -> p[1] >= 2
    [] c = "reedmuller" -> 0 <= p[1] /\ p[1] < p[2]
    [] c = "bch" -> p[1] >= 2 /\ Bose(p[1], p[2])
    [] c = "polar" -> p[1] >= 1 /\ In(p[2], 0, P2(p[1])) /\ Distinct(p[2])
    [] c = "lexicode" -> 1 <= p[2] /\ p[2] <= p[1]
    [] c = "cyclic" -> p[2] \in {0, 1} /\ Divides(p[3], p[1])        \* by generator, by check, both, neither
    [] c = "block" -> p[1] \in {0, 1}
    [] c = "systematic" -> Len(p[3]) = p[1] /\ In(p[3], 0, p[1] + p[2]) /\ Distinct(p[3])
    [] c = "systematicnamed" -> p[3] \in {0, 1}
    [] c \in {"natural", "reflected"} -> p[1] >= 1
    [] c = "rectangular" -> p[1] > 0 /\ p[1] % 2 = 0
    [] c = "rectangularpair" -> p[1] >= 1 /\ p[2] >= 1
    [] c = "product" -> Len(p[1]) >= 1 /\ p[2] >= 1
    [] c = "labeling" -> LET m == Len(p[1][1]) IN m >= 1 /\ SameLen(p[1]) /\ Len(p[1]) = P2(m) /\ (\A a \in 1..Len(p[1]) : In(p[1][a], 0, 2)) /\ Distinct(p[1])
    [] c = "indices" -> In(p[2], 0, P2(p[1]))
    [] c = "labels" -> In(p[2], 0, 2) /\ Len(p[2]) % p[1] = 0
    [] c = "metrics" -> p[2] % P2(p[1]) = 0
    [] c = "biorthogonal" -> p[1] % 2 = 0
    [] c = "crossqam" -> \E k \in 2..8 : p[1] = P2(2 * k + 1)
    [] c = "qam" -> IsSquare(p[1])
    [] c = "constellation" -> p[1] \in {1, 2}
    [] c = "uniform" -> p[1] > 1 /\ Positive(p[2])
    [] c = "scalar" -> Len(p[2]) = Len(p[1]) - 1 /\ Increasing(Interleave(p[1], p[2]))
    [] c \in {"lz77", "lzss"} -> p[1] >= 1 /\ p[2] >= 1 /\ p[3] >= 2 /\ p[4] >= 2 /\ p[5] \in {-1, p[1]}
    [] c \in {"lz78", "lzw"} -> p[1] >= 2 /\ p[2] >= 2
    [] c = "huffman" -> Law(p[1], p[2]) /\ p[3] >= 1 /\ p[4] \in {0, 1} /\ p[5] \in {0, 1}
    [] c = "shannon" -> Law(p[1], p[2]) /\ (\A j \in 1..Len(p[1]) : p[1][j] > 0) /\ p[3] >= 1
    [] c = "fano" -> Law(p[1], p[2]) /\ p[3] >= 1
    [] c = "tunstall" -> Law(p[1], p[2]) /\ (p[3] < 0 \/ P2(p[3]) >= Len(p[1]))      \* below zero: the default
    [] c = "fixedtovariable" -> p[1] >= 2 /\ p[2] >= 2 /\ p[3] >= 1 /\ InSeq(p[4]) = Tuples(p[1], p[3]) /\ WordsOK(p[5], p[2])
    [] c = "codewords" -> p[2] >= 2 /\ (\A j \in 1..Len(p[1]) : Len(p[1][j]) > 0) /\ IsPower(Len(p[1]), p[2]) /\ Letters(p[1]) >= 2 /\ WordsOK(p[1], Letters(p[1]))
    [] c = "lengths" -> p[2] >= 2 /\ p[3] >= 2 /\ (\A j \in 1..Len(p[1]) : p[1][j] >= 1) /\ IsPower(Len(p[1]), p[2]) /\ Kraft(p[1], p[3])
    [] c = "variabletofixed" -> p[1] >= 2 /\ p[2] >= 2 /\ p[3] >= 1 /\ InSeq(p[4]) \subseteq Tuples(p[1], p[3]) /\ WordsOK(p[5], p[2])
    [] c = "sourcewords" -> p[2] >= 2 /\ (\A j \in 1..Len(p[1]) : Len(p[1][j]) > 0) /\ Letters(p[1]) >= 2 /\ WordsOK(p[1], Letters(p[1]))
    [] c \in {"bsc", "bec", "zchannel", "binaryentropy", "binaryentropyinverse"} -> Unit(p)
    [] c = "dmc" -> SameLen(p[1]) /\ \A a \in 1..Len(p[1]) : Law(p[1][a], p[2])
    [] c = "markov" -> SameLen(p[1]) /\ (\A a \in 1..Len(p[1]) : Law(p[1][a], p[2])) /\ Len(p[1]) = Len(p[1][1])
    [] c = "dms" -> Law(p[1], p[2])
    [] c = "dmsuniform" -> p[1] >= 1
    [] c = "gaussianchannel" -> Real(p) /\ p[1] >= 0
    [] c = "logbase" -> Positive(p) /\ p[1] # p[2]
    [] c = "logname" -> p[1] = 0
    [] c = "walsh" -> PowerOfTwo(p[1]) /\ 0 <= p[2] /\ p[2] < p[1] /\ p[3] \in {0, 1}
    [] c = "barker" -> p[1] \in {2, 3, 4, 5, 7, 11, 13}
    [] c = "zadoffchu" -> p[1] % 2 = 1 /\ 1 <= p[2] /\ p[2] < p[1]
    [] c = "binarysequence" -> p[1] \in {0, 1}
    [] c = "field" -> p[1] >= 1 /\ Deg(p[2]) = p[1] /\ IrreducibleDef(Bits(p[2]))
    [] c = "defaultfield" -> 1 <= p[1] /\ p[1] <= 24
    [] c = "fraction" -> p[2] # 0
    [] c = "convolutional" -> p[1] = 2 /\ (p[4] = -1 \/ (p[4] = 1 /\ p[5] = p[2]))
    [] c \in {"highrate", "lowrate"} -> p[1] = 1
    [] c = "terminated" -> p[1] \in {0, 1, 2}
    [] c \in {"viterbi", "bcjr"} -> p[1] \in {0, 1} /\ p[2] \in {0, 1}
    [] c \in {"down", "up"} -> p[2] > 0 /\ 0 <= p[3] /\ p[3] < p[2]
    [] c = "bitorder" -> p[1] \in {0, 1}
    [] c \in {"raisedcosine", "beaulieu"} -> Unit(p)
    [] c = "rectangularpulse" -> Unit(p) /\ p[1] > 0
    [] c = "gaussianpulse" -> Positive(p)
    [] c = "pmfshape" -> p[1] = 1
    [] c = "matrixshape" -> p[1] = 2
    [] c = "labelingshape" -> p[1] = 2
    [] c = "lengthsshape" -> p[1] = 1
    [] c \in {"priors", "samelength", "boxplus"} -> p[1] = p[2]
    [] c = "received" -> p[2] % p[1] = 0
    [] c = "initialstate" -> p[2] = 1 /\ p[3] = p[1]
    [] c = "marcum" -> p[1] > 0 /\ p[2] >= 0 /\ p[3] >= 0
    [] c = "lzinput" -> In(p[3], 0, p[2])
    [] c = "unary" -> \A j \in 1..Len(p[1]) : p[1][j] >= 0
    [] c = "fibonacci" -> \A j \in 1..Len(p[1]) : p[1][j] >= 1
    [] c = "unarybits" -> In(p[1], 0, 2) /\ (p[1] = <<>> \/ p[1][Len(p[1])] = 0)
    [] c = "fibonaccibits" -> In(p[1], 0, 2) /\ FibWords(p[1]) >= 0

(* what an admitted object reports: <<length, dimension>> of codes, <<bits,   *)
(* cardinality>> of labelings, <<order, dimension>> of constellations, the    *)
(* alphabets and block sizes of source codes, ...                             *)
Size(q) == LET p == q.p c == q.c IN
  CASE c = "hamming" -> <<P2(p[1]) - 1 + p[2], P2(p[1]) - 1 - p[1]>>
    [] c = "simplexcode" -> <<P2(p[1]) - 1 + p[2], p[1] + p[2]>>
    [] c = "repetition" -> <<p[1], 1>>
    [] c = "parity" -> <<p[1], p[1] - 1>>
    [] c = "cordaro" -> <<p[1], 2>>
    [] c = "reedmuller" -> <<P2(p[2]), FoldSet(LAMBDA j, acc : acc + Choose(p[2], j), 0, 0..p[1])>>
    [] c = "bch" -> <<P2(p[1]) - 1, P2(p[1]) - 1 - Cardinality(Roots(p[1], p[2]))>>
    [] c = "polar" -> <<P2(p[1]), P2(p[1]) - Len(p[2])>>
    [] c = "lexicode" -> <<p[1]>>
    [] c = "cyclic" -> <<p[1], IF p[2] = 0 THEN p[1] - Deg(p[3]) ELSE Deg(p[3])>>
    [] c = "block" -> <<p[3], IF p[1] = 0 THEN p[2] ELSE p[3] - p[2]>>
    [] c \in {"systematic", "systematicnamed"} -> <<p[1] + p[2], p[1]>>
    [] c \in {"natural", "reflected", "rectangular"} -> <<p[1], P2(p[1])>>
    [] c = "rectangularpair" -> <<p[1] + p[2], P2(p[1] + p[2])>>
    [] c = "product" -> <<p[2] * Tot(p[1]), P2(p[2] * Tot(p[1]))>>
    [] c = "labeling" -> <<Len(p[1][1]), Len(p[1])>>
    [] c = "indices" -> <<p[1] * Len(p[2])>>
    [] c = "labels" -> <<Len(p[2]) \div p[1]>>
    [] c = "metrics" -> <<p[1] * (p[2] \div P2(p[1]))>>
    [] c = "biorthogonal" -> <<p[1], p[1] \div 2>>
    [] c \in {"crossqam", "qam"} -> <<p[1], 1>>
    [] c = "constellation" -> <<p[2], IF p[1] = 1 THEN 1 ELSE p[3]>>
    [] c = "uniform" -> <<p[1]>>
    [] c = "scalar" -> <<Len(p[1])>>
    [] c \in {"lz77", "lzss"} -> SubSeq(p, 1, 4)
    [] c \in {"lz78", "lzw"} -> p
    [] c \in {"huffman", "shannon", "fano"} -> <<Len(p[1]), 2, p[3]>>
    [] c = "tunstall" -> <<Len(p[1]), 2, IF p[3] < 0 THEN LeastBlock(Len(p[1]), 2) ELSE p[3]>>
    [] c = "fixedtovariable" -> <<p[1], p[2], p[3]>>
    [] c = "codewords" -> <<p[2], Letters(p[1]), PowerOf(Len(p[1]), p[2])>>
    [] c = "lengths" -> <<p[2], p[3], PowerOf(Len(p[1]), p[2])>>
    [] c = "variabletofixed" -> <<p[2], p[1], p[3]>>
    [] c = "sourcewords" -> <<Letters(p[1]), p[2], LeastBlock(Len(p[1]), p[2])>>
    [] c \in {"bsc", "zchannel"} -> <<2, 2>>
    [] c = "bec" -> <<2, 3>>
    [] c = "dmc" -> <<Len(p[1]), Len(p[1][1])>>
    [] c \in {"markov", "dms"} -> <<Len(p[1])>>
    [] c = "dmsuniform" -> p
    [] c \in {"walsh", "zadoffchu", "barker"} -> <<p[1]>>
    [] c = "binarysequence" -> <<p[2]>>
    [] c = "field" -> <<p[1], P2(p[1])>>
    [] c = "defaultfield" -> p
    [] c = "convolutional" -> <<p[2], p[3]>>
    [] c = "highrate" -> <<p[2] - 1, p[2]>>
    [] c = "lowrate" -> <<1, p[2]>>
    [] c = "down" -> <<IF p[3] >= p[1] THEN 0 ELSE CeilDiv(p[1] - p[3], p[2])>>
    [] c = "up" -> <<p[1] * p[2]>>
    [] c = "received" -> <<p[2] \div p[1]>>
    [] c = "unary" -> <<Tot(p[1]) + Len(p[1])>>
    [] c = "unarybits" -> <<Cardinality({j \in 1..Len(p[1]) : p[1][j] = 0})>>
    [] c = "fibonaccibits" -> <<FibWords(p[1])>>
    [] OTHER -> <<>>
=============================================================================

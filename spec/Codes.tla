------------------------------- MODULE Codes -------------------------------
(* Variable-length coding: definitions.                                      *)
EXTENDS Words, SequencesExt

(* --- classification of a list of words --- *)
PrefixFree(ws) == \A a, b \in 1..Len(ws) : a # b => ~ IsPre(ws[a], ws[b])

(* Unique parsability.  Two parsings of the same string, started by different *)
(* words, are kept as the suffix by which one is ahead of the other; the list *)
(* is not uniquely parsable iff they can ever meet (suffix exactly a word).   *)
Dangling(u, v) == IF IsPre(u, v) THEN {SubSeq(v, Len(u) + 1, Len(v))} ELSE {}
FirstAhead(ws) == UNION {UNION {IF a = b THEN {} ELSE Dangling(ws[a], ws[b]) : b \in 1..Len(ws)} : a \in 1..Len(ws)}
NextAhead(ws, s) == UNION {Dangling(ws[a], s) \cup Dangling(s, ws[a]) : a \in 1..Len(ws)}
RECURSIVE AheadClosure(_, _, _)
AheadClosure(ws, done, new) ==
    IF new = {} THEN done
    ELSE LET d == done \cup new IN
         IF <<>> \in d THEN d
         ELSE AheadClosure(ws, d, UNION {NextAhead(ws, s) : s \in new} \ d)
UniquelyParsable(ws) == <<>> \notin AheadClosure(ws, {}, FirstAhead(ws))

(* Every infinite sequence over 0..q-1 has a prefix in ws. *)
RECURSIVE CoversFrom(_, _, _)
CoversFrom(ws, q, w) ==
    \/ \E a \in 1..Len(ws) : ws[a] = w
    \/ /\ \E a \in 1..Len(ws) : IsPre(w, ws[a])
       /\ \A s \in 0..(q - 1) : CoversFrom(ws, q, Append(w, s))
FullyCovering(ws, q) == CoversFrom(ws, q, <<>>)

(* --- fixed-to-variable coding --- *)
BlockIndex(msg, b, k, X) == Value(SubSeq(msg, (b - 1) * k + 1, b * k), X) + 1
FVEncode(ws, X, k, msg) == Flatten([b \in 1..(Len(msg) \div k) |-> ws[BlockIndex(msg, b, k, X)]])

(* the word of a prefix-free list at position p of s, 0 if none *)
WordAt(ws, s, p) ==
    LET c == {a \in 1..Len(ws) : p + Len(ws[a]) - 1 <= Len(s) /\ \A j \in 1..Len(ws[a]) : s[p + j - 1] = ws[a][j]}
    IN IF c = {} THEN 0 ELSE CHOOSE a \in c : TRUE
RECURSIVE ParseAux(_, _, _, _)
(* [ok, seq of word numbers, rest position] *)
ParseAux(ws, s, p, acc) ==
    IF p > Len(s) THEN [ok |-> TRUE, idx |-> acc, p |-> p]
    ELSE LET a == WordAt(ws, s, p) IN
         IF a = 0 THEN [ok |-> FALSE, idx |-> acc, p |-> p] ELSE ParseAux(ws, s, p + Len(ws[a]), Append(acc, a))
Parse(ws, s) == ParseAux(ws, s, 1, <<>>)

(* --- canonical code for a list of positive lengths --- *)
(* words in order of (length, position) get consecutive integers, left justified *)
KraftCount(ls, q, m) == Sum([a \in 1..Len(ls) |-> Pow(q, m - ls[a])])       \* Kraft sum times q^m
MaxOf(ls) == CHOOSE x \in {ls[a] : a \in 1..Len(ls)} : \A a \in 1..Len(ls) : ls[a] <= x
Canonical(ls, q) ==
    LET m == MaxOf(ls)
        before(a, b) == ls[b] < ls[a] \/ (ls[b] = ls[a] /\ b < a)
        start(a) == Sum([b \in 1..Len(ls) |-> IF before(a, b) THEN Pow(q, m - ls[b]) ELSE 0])
    IN [a \in 1..Len(ls) |-> Digits(start(a) \div Pow(q, m - ls[a]), q, ls[a])]

(* --- probability weights of blocks: first-order weights w (sum T) --- *)
RECURSIVE ProdW(_, _, _)
ProdW(w, word, j) == IF j > Len(word) THEN 1 ELSE w[word[j] + 1] * ProdW(w, word, j + 1)
WordWeight(w, word) == ProdW(w, word, 1)
BlockWeights(w, k) == [a \in 1..Pow(Len(w), k) |-> WordWeight(w, Digits(a - 1, Len(w), k))]
Dot(u, v) == Sum([a \in 1..Len(u) |-> u[a] * v[a]])

(* minimum of sum of internal-node weights over binary trees: Huffman's merge *)
RECURSIVE InsertSorted(_, _)
InsertSorted(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertSorted(x, Tail(s))
RECURSIVE SortAux(_, _, _)
SortAux(s, j, acc) == IF j > Len(s) THEN acc ELSE SortAux(s, j + 1, InsertSorted(s[j], acc))
SortAsc(s) == SortAux(s, 1, <<>>)
RECURSIVE MergeCost(_, _)
MergeCost(s, acc) == IF Len(s) <= 1 THEN acc
                     ELSE LET m == s[1] + s[2] IN MergeCost(InsertSorted(m, SubSeq(s, 3, Len(s))), acc + m)
OptimalCost(ws) == MergeCost(SortAsc(ws), 0)

(* --- Fano: all length lists allowed by "split as evenly as possible" --- *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE FanoLens(_, _, _, _)
FanoLens(p, lo, hi, d) ==        \* p sorted in decreasing order; set of length lists for p[lo..hi]
    IF lo = hi THEN {<<d>>}
    ELSE LET tot == Sum(SubSeq(p, lo, hi))
             diff(m) == Abs(2 * Sum(SubSeq(p, lo, m)) - tot)
             best == {m \in lo..(hi - 1) : \A m2 \in lo..(hi - 1) : diff(m) <= diff(m2)}
         IN UNION {{a \o b : a \in FanoLens(p, lo, m, d + 1), b \in FanoLens(p, m + 1, hi, d + 1)} : m \in best}
CountPair(p, l, x, y) == Cardinality({a \in 1..Len(p) : p[a] = x /\ l[a] = y})
SameBag(p1, l1, p2, l2) == \A a \in 1..Len(p1) : CountPair(p1, l1, p1[a], l1[a]) = CountPair(p2, l2, p1[a], l1[a])
FanoOK(weights, lens) ==
    LET p == Reverse(SortAsc(weights)) IN \E ls \in FanoLens(p, 1, Len(p), 0) : SameBag(p, ls, weights, lens)

(* --- Shannon --- *)
RECURSIVE ShannonLenAux(_, _, _)
ShannonLenAux(w, T, l) == IF w * Pow(2, l) >= T THEN l ELSE ShannonLenAux(w, T, l + 1)
ShannonLen(w, T) == LET l == ShannonLenAux(w, T, 0) IN IF l = 0 THEN 1 ELSE l

(* --- variable-to-fixed coding --- *)
(* Tunstall's greedy splitting: [sum over internal nodes of probability * T^D] *)
RECURSIVE MaxLen(_, _)
MaxLen(ws, j) == IF j > Len(ws) THEN 0 ELSE LET r == MaxLen(ws, j + 1) IN IF Len(ws[j]) > r THEN Len(ws[j]) ELSE r
(* leaves as a decreasing sorted sequence of scaled probabilities; cost accumulates split leaves *)
RECURSIVE InsertDesc(_, _)
InsertDesc(x, s) == IF s = <<>> THEN <<x>> ELSE IF x >= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertDesc(x, Tail(s))
RECURSIVE InsertAllDesc(_, _, _)
InsertAllDesc(xs, j, s) == IF j > Len(xs) THEN s ELSE InsertAllDesc(xs, j + 1, InsertDesc(xs[j], s))
(* probabilities as pairs <<numerator, depth>> scaled to T^D *)
RECURSIVE TunstallAux(_, _, _, _, _)
TunstallAux(w, T, leaves, room, acc) ==
    IF room < Len(w) - 1 THEN acc
    ELSE LET x == Head(leaves) IN
         TunstallAux(w, T, InsertAllDesc([a \in 1..Len(w) |-> (x \div T) * w[a]], 1, Tail(leaves)), room - (Len(w) - 1), acc + x)
(* mean parse length times T^D, of the best complete tree with at most 2^n leaves, exact while depth <= D *)
BestMean(w, T, n, D) == TunstallAux(w, T, InsertAllDesc([a \in 1..Len(w) |-> Pow(T, D - 1) * w[a]], 1, <<>>), Pow(2, n) - Len(w), Pow(T, D))
MeanLen(ws, w, T, D) == Sum([a \in 1..Len(ws) |-> Len(ws[a]) * WordWeight(w, ws[a]) * Pow(T, D - Len(ws[a]))])

(* --- large dictionaries: optimality from its exchange condition --- *)
(* A complete parsing tree is optimal iff no leaf is likelier than any internal node. *)
(* Probabilities w^counts / T^length are compared exactly: naturals in base 10000, least limb first. *)
BigMul(b, m) == LET r == FoldLeft(LAMBDA s, d : LET t == d * m + s[2] IN <<Append(s[1], t % 10000), t \div 10000>>, <<<<>>, 0>>, b)
                IN IF m = 0 THEN <<>> ELSE IF r[2] = 0 THEN r[1] ELSE IF r[2] < 10000 THEN Append(r[1], r[2]) ELSE r[1] \o <<r[2] % 10000, r[2] \div 10000>>
BigLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE LET d == {j \in 1..Len(a) : a[j] # b[j]} IN d # {} /\ LET t == CHOOSE x \in d : \A y \in d : y <= x IN a[t] < b[t]
BigWeight(w, word) == FoldLeft(LAMBDA b, x : BigMul(b, w[x + 1]), <<1>>, word)      \* times T^Len(word)
RECURSIVE BigScale(_, _, _)
BigScale(b, T, k) == IF k = 0 THEN b ELSE BigScale(BigMul(b, T), T, k - 1)
(* word u strictly less probable than word v *)
LessLikely(w, T, u, v) == LET d == Len(u) - Len(v) IN
    BigLess(BigScale(BigWeight(w, u), T, IF d < 0 THEN -d ELSE 0), BigScale(BigWeight(w, v), T, IF d > 0 THEN d ELSE 0))
(* a word with the same symbol counts, sorted: words of one type are equally likely *)
TypeOf(word, q) == FoldLeft(LAMBDA c, x : [c EXCEPT ![x + 1] = @ + 1], [a \in 1..q |-> 0], word)
WordOfType(c) == FoldLeft(LAMBDA s, a : s \o [j \in 1..c[a] |-> a - 1], <<>>, [a \in 1..Len(c) |-> a])
Extreme(ws, better(_, _)) == LET l == SetToSeq(ws) IN FoldLeft(LAMBDA b, x : IF better(x, b) THEN x ELSE b, l[1], l)
InnerNodes(leaves) == UNION {{SubSeq(x, 1, j) : j \in 0..(Len(x) - 1)} : x \in leaves}
CompleteTree(leaves, q) == LET inner == InnerNodes(leaves) IN
    /\ leaves \cap inner = {}
    /\ \A v \in inner : \A a \in 0..(q - 1) : Append(v, a) \in inner \cup leaves
ExchangeOptimal(leaves, w, T) ==
    LET q == Len(w)
        lt == {WordOfType(TypeOf(x, q)) : x \in leaves}
        it == {WordOfType(TypeOf(x, q)) : x \in InnerNodes(leaves)}
    IN ~ LessLikely(w, T, Extreme(it, LAMBDA u, v : LessLikely(w, T, u, v)), Extreme(lt, LAMBDA u, v : LessLikely(w, T, v, u)))

(* |v/scale - num/den| <= tol/scale *)
Near(v, num, den, scale, tol) == Abs(v * den - num * scale) <= tol * den
=============================================================================

------------------------------ MODULE MC_Domains ------------------------------
(* Every request of a small grid, around and across the border of each        *)
(* domain; a request is answered once, by an object or by a refusal.  The     *)
(* border is compared with what the parameters are for, and every request is  *)
(* emitted for replay into the implementation.                                *)
EXTENDS Domains, Json
VARIABLES q, st
vars == <<q, st>>
R(c, ps) == {[c |-> c, p |-> p] : p \in ps}
L1(S) == {<<x>> : x \in S}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
SeqsN(S, lo, n) == UNION {[1..k -> S] : k \in lo..n}
Reals == {<<a, b>> : a \in -2..6, b \in {1, 4, 5}} \cup {<<0, 0>>, <<-1, 1000000>>, <<1, 1000000>>, <<999999, 1000000>>, <<1000001, 1000000>>, <<1000000, 1000000>>}
Pmfs == {<<w, 4>> : w \in SeqsN(-1..4, 2, 3)}
Small == {w \in Pmfs : Tot(w[1]) \in 3..5}
Words == {<<>>, <<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 1>>, <<0, -1>>}
Grid ==
       R("hamming", {<<m, e>> : m \in -1..6, e \in 0..1}) \cup R("simplexcode", {<<m, e>> : m \in -1..6, e \in 0..1})
  \cup R("repetition", L1(-2..9)) \cup R("parity", L1(-2..9)) \cup R("cordaro", L1(-2..12))
  \cup R("reedmuller", {<<a, b>> : a \in -1..6, b \in -1..6})
  \cup R("bch", {<<a, b>> : a \in 1..5, b \in 0..33})
  \cup R("polar", {<<m, f>> : m \in 0..2, f \in Seqs(-1..4, 3)})
  \cup R("lexicode", {<<a, b>> : a \in 0..6, b \in -1..7})
  \cup R("cyclic", {<<n, k, g>> : n \in {3, 5, 6, 7}, k \in 0..3, g \in 0..40})
  \cup R("block", {<<k, a, b>> : k \in 0..3, a \in 1..3, b \in 4..5})
  \cup R("systematic", {<<k, m, s>> : k \in 1..2, m \in 1..2, s \in Seqs(-1..4, 3)})
  \cup R("systematicnamed", {<<k, m, s>> : k \in 1..3, m \in 1..3, s \in 0..4})
  \cup R("natural", L1(-2..6)) \cup R("reflected", L1(-2..6)) \cup R("rectangular", L1(-3..8))
  \cup R("rectangularpair", {<<a, b>> : a \in -1..3, b \in -1..3})
  \cup R("product", {<<s, n>> : s \in Seqs(1..2, 2), n \in -1..3})
  \cup R("labeling", {<<rows>> : rows \in SeqsN(SeqsN(0..1, 2, 2), 3, 5) \cup SeqsN(SeqsN(0..2, 1, 1), 1, 3)
                                 \cup {[t EXCEPT ![4] = <<x, y>>] : t \in {<< <<0, 0>>, <<0, 1>>, <<1, 1>>, <<1, 0>> >>}, x \in -1..2, y \in -1..2}})
  \cup R("indices", {<<m, s>> : m \in 1..2, s \in SeqsN(-1..4, 1, 2)})
  \cup R("labels", {<<m, s>> : m \in 1..3, s \in SeqsN(-1..2, 1, 3)})
  \cup R("metrics", {<<m, n>> : m \in 1..3, n \in 1..17})
  \cup R("biorthogonal", L1(1..16)) \cup R("crossqam", L1(0..140 \cup {256, 512, 513, 1024, 2048}))
  \cup R("qam", L1(-4..-1 \cup 1..150)) \cup R("constellation", {<<d, a, b>> : d \in 0..4, a \in 2..4, b \in 1..2})
  \cup R("uniform", {<<n, r>> : n \in -1..5, r \in Reals})
  \cup R("scalar", {<<y, t>> : y \in SeqsN(0..4, 2, 3), t \in SeqsN(0..4, 1, 2)})
  \cup R("lz77", {<<s, l, x, y, b>> : s \in 0..2, l \in 0..2, x \in 0..3, y \in 1..3, b \in {-1, 1, 2}})
  \cup R("lzss", {<<s, l, x, y, b>> : s \in 0..2, l \in 0..2, x \in 0..3, y \in 1..3, b \in {-1, 1, 2}})
  \cup R("lz78", {<<x, y>> : x \in -1..4, y \in -1..4}) \cup R("lzw", {<<x, y>> : x \in -1..4, y \in -1..4})
  \cup R("huffman", {<<w[1], w[2], k, a, b>> : w \in {v \in Small : Len(v[1]) = 2}, k \in 0..2, a \in 0..3, b \in 0..3})
  \cup R("huffman", {<<w[1], w[2], k, 0, 1>> : w \in Pmfs, k \in -1..1})
  \cup R("shannon", {<<w[1], w[2], k>> : w \in Pmfs, k \in -1..2}) \cup R("fano", {<<w[1], w[2], k>> : w \in Pmfs, k \in -1..2})
  \cup R("tunstall", {<<w[1], w[2], k>> : w \in Pmfs, k \in -1..3})
  \cup R("fixedtovariable", {<<x, y, k, ks, ws>> : x \in 1..2, y \in 1..2, k \in 0..1, ks \in {<< <<0>> >>, << <<0>>, <<1>> >>, << <<1>>, <<0>> >>, << <<0>>, <<2>> >>, << <<0>>, <<1>>, <<2>> >>},
                                 ws \in [1..2 -> Words]} )
  \cup R("codewords", {<<ws, x>> : ws \in SeqsN(Words, 2, 4) \cap SeqsN({<<>>, <<0>>, <<1>>, <<0, 1>>, <<2, 1>>}, 2, 4), x \in 1..4})
  \cup R("lengths", {<<ls, x, y>> : ls \in SeqsN(-1..3, 2, 4), x \in 1..4, y \in 1..3})
  \cup R("variabletofixed", {<<y, x, n, ks, ws>> : y \in 1..2, x \in 1..2, n \in 0..1, ks \in {<< <<0>> >>, << <<0>>, <<1>> >>, << <<1>> >>, << <<0>>, <<2>> >>, << <<0, 0>>, <<1, 0>> >>},
                                 ws \in [1..2 -> Words]})
  \cup R("sourcewords", {<<ws, y>> : ws \in SeqsN({<<>>, <<0>>, <<1>>, <<0, 1>>, <<2, 1>>}, 2, 3), y \in 1..4})
  \cup UNION {R(c, Reals) : c \in {"bsc", "bec", "zchannel", "binaryentropy", "binaryentropyinverse", "gaussianchannel", "raisedcosine", "beaulieu", "rectangularpulse", "gaussianpulse"}}
  \cup R("logbase", Reals \ {<<0, 0>>}) \cup R("logname", L1(0..4))
  \cup R("dmc", {<<rows, 2>> : rows \in SeqsN(SeqsN(-1..2, 2, 2), 1, 2) \cup SeqsN(SeqsN(0..2, 1, 3) \ [1..3 -> {0}], 1, 2)})
  \cup R("markov", {<<rows, 2>> : rows \in SeqsN(SeqsN(-1..2, 2, 2), 1, 3) \cup SeqsN(SeqsN(0..2, 1, 3), 1, 2)})
  \cup R("dms", Pmfs) \cup R("dmsuniform", L1(-2..9))
  \cup R("walsh", {<<n, i, o>> : n \in -2..17, i \in -1..17, o \in {0, 1, 3, 4}})
  \cup R("barker", L1(-1..20)) \cup R("zadoffchu", {<<n, k>> : n \in 1..10, k \in -1..11})
  \cup R("binarysequence", {<<k, n>> : k \in 0..3, n \in 1..4})
  \cup R("field", {<<k, m>> : k \in -1..6, m \in 0..80}) \cup R("defaultfield", L1(-1..16 \cup {25, 26, 30}))
  \cup R("fraction", {<<a, b>> : a \in 0..4, b \in 0..4})
  \cup R("convolutional", {<<d, a, b, e, n>> : d \in 0..3, a \in 1..3, b \in 2..3, e \in -1..2, n \in 1..3})
  \cup R("highrate", {<<d, n>> : d \in 0..3, n \in 2..4}) \cup R("lowrate", {<<d, n>> : d \in 0..3, n \in 2..4})
  \cup R("terminated", L1(0..6)) \cup R("viterbi", {<<a, b>> : a \in 0..1, b \in 0..4}) \cup R("bcjr", {<<a, b>> : a \in 0..1, b \in 0..4})
  \cup R("down", {<<n, f, o>> : n \in 1..5, f \in -1..4, o \in -1..5}) \cup R("up", {<<n, f, o>> : n \in 1..5, f \in -1..4, o \in -1..5})
  \cup R("bitorder", {<<a, b>> : a \in 0..4, b \in 0..1})
  \cup UNION {R(c, L1(0..4)) : c \in {"pmfshape", "matrixshape", "labelingshape", "lengthsshape"}}
  \cup UNION {R(c, {<<a, b>> : a \in 1..5, b \in 1..5}) : c \in {"priors", "samelength", "boxplus"}}
  \cup R("received", {<<a, b>> : a \in 1..5, b \in 1..12})
  \cup R("initialstate", {<<a, d, n>> : a \in 1..4, d \in 0..2, n \in 1..5})
  \cup R("marcum", {<<m, a, x>> : m \in -2..4, a \in -2..3, x \in -2..3})
  \cup R("lzinput", {<<w, x, s>> : w \in 0..3, x \in 2..3, s \in SeqsN(-1..3, 1, 3)})
  \cup R("unary", L1(SeqsN(-1..3, 1, 3))) \cup R("fibonacci", L1(SeqsN(-1..3, 1, 3)))
  \cup R("unarybits", L1(SeqsN(-1..2, 1, 4))) \cup R("fibonaccibits", L1(SeqsN(-1..2, 1, 5)))
Paired(r) == r.c \in {"fixedtovariable", "variabletofixed"} => Len(r.p[4]) <= Len(r.p[5])
Cut(r) == IF r.c \in {"fixedtovariable", "variabletofixed"} THEN [r EXCEPT !.p[5] = SubSeq(r.p[5], 1, Len(r.p[4]))] ELSE r
Init == q \in {Cut(r) : r \in {s \in Grid : Paired(s)}} /\ st = "asked"
Answer == st = "asked" /\ st' = (IF Adm(q) THEN "built" ELSE "refused") /\ UNCHANGED q
Next == Answer
Spec == Init /\ [][Next]_vars
Emit == st = "asked" => PrintT("KV|GEN|" \o ToJson(q))

(* ---- the border agrees with what the parameters are for ---- *)
Built == st = "built"
p == q.p
Block == {"hamming", "simplexcode", "repetition", "parity", "cordaro", "reedmuller", "bch", "polar", "cyclic", "block", "systematic", "systematicnamed"}
CodesMakeSense == (Built /\ q.c \in Block) => 0 <= Size(q)[2] /\ Size(q)[2] <= Size(q)[1] /\ Size(q)[1] >= 1
Labels == {"natural", "reflected", "rectangular", "rectangularpair", "product", "labeling"}
LabelingsAreBijections == (Built /\ q.c \in Labels) => Size(q)[1] >= 1 /\ Size(q)[2] = P2(Size(q)[1])
ExplicitLabeling == (st # "asked" /\ q.c = "labeling" /\ Len(p[1][1]) = 2 /\ SameLen(p[1])) => (Built <=> InSeq(p[1]) = Tuples(2, 2) /\ Len(p[1]) = 4)
AlphabetsMakeSense == (Built /\ q.c \in {"huffman", "shannon", "fano", "tunstall", "fixedtovariable", "codewords", "lengths", "variabletofixed", "sourcewords"}) =>
                         Size(q)[1] >= 2 /\ Size(q)[2] >= 2 /\ Size(q)[3] >= 1
(* delta is a Bose distance exactly when it is the largest designed distance of the code it gives *)
BoseIsLargest == (st # "asked" /\ q.c = "bch" /\ p[1] >= 2 /\ p[2] \in 2..(P2(p[1]) - 1)) =>
                   (Built <=> \A d \in (p[2] + 1)..(P2(p[1]) - 1) : Roots(p[1], d) # Roots(p[1], p[2]))
(* divisors of X^n + 1 are what is left of it after dividing: g h = X^n + 1 *)
CyclicCofactor == (Built /\ q.c = "cyclic") => \E h \in 1..P2(p[1] + 1 - Deg(p[3])) : MulS(Bits(p[3]), Bits(h)) = ModXn1(p[1])
FieldHasNoDivisors == (st # "asked" /\ q.c = "field" /\ Deg(p[2]) = p[1] /\ p[1] >= 1) =>
                        (Built <=> \A a \in 2..(p[2] - 1) : \A b \in 2..a : Deg(a) + Deg(b) # p[1] \/ MulS(Bits(a), Bits(b)) # Bits(p[2]))
(* lengths are admitted exactly when a prefix-free code has them: fill the tree level by level *)
RECURSIVE Room(_, _, _, _)
Room(ls, b, l, free) == IF l > Longest(ls) THEN TRUE
                        ELSE LET f == free * b - Cardinality({j \in 1..Len(ls) : ls[j] = l}) IN f >= 0 /\ Room(ls, b, l + 1, f)
LengthsFit == (st # "asked" /\ q.c = "lengths" /\ p[2] >= 2 /\ p[3] >= 2 /\ (\A j \in 1..Len(p[1]) : p[1][j] >= 1) /\ IsPower(Len(p[1]), p[2])) =>
                (Built <=> Room(p[1], p[3], 1, 1))
(* quantizer levels and thresholds alternate: every level is strictly inside its cell *)
LevelsInCells == (Built /\ q.c = "scalar") => \A j \in 1..Len(p[1]) : (j > 1 => p[2][j - 1] < p[1][j]) /\ (j < Len(p[1]) => p[1][j] < p[2][j])
=============================================================================

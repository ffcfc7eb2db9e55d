------------------------------ MODULE MC_Codes ------------------------------
(* Exhaustive small-scope check that the definitions in Codes, which the     *)
(* trace specification uses to judge the implementation, are themselves      *)
(* right: each is compared with a brute-force statement of what it means.    *)
(* The race automaton (two parsings of one string) is explored as a          *)
(* transition system for every small word list.                              *)
EXTENDS Codes, TLC
CONSTANTS MaxStr

VARIABLES kind, ws, s   \* s: current lead of one parsing over the other

WordSet == UNION {WordsOf(2, n) : n \in 1..3}
Key(w) == Value(<<1>> \o w, 2)
Lists == {<<a, b, d>> : a \in WordSet, b \in WordSet, d \in WordSet}
SortedLists == {l \in Lists : Key(l[1]) <= Key(l[2]) /\ Key(l[2]) <= Key(l[3])}

RECURSIVE Parsings(_, _, _)
Parsings(l, str, p) == IF p > Len(str) THEN 1
    ELSE Sum([a \in 1..Len(l) |-> IF p + Len(l[a]) - 1 <= Len(str) /\ (\A j \in 1..Len(l[a]) : str[p + j - 1] = l[a][j])
                                  THEN Parsings(l, str, p + Len(l[a])) ELSE 0])
Ambiguous(l) == \E n \in 1..MaxStr : \E str \in WordsOf(2, n) : Parsings(l, str, 1) > 1

Weights == {w \in [1..4 -> 0..3] : w[1] <= w[2] /\ w[2] <= w[3] /\ w[3] <= w[4]}
Lens == [1..4 -> 1..4]

Init == \/ kind = "race" /\ ws \in SortedLists /\ s \in FirstAhead(ws)
        \/ kind = "list" /\ ws \in SortedLists /\ s = <<>>
        \/ kind = "weights" /\ ws \in Weights /\ s = <<>>
        \/ kind = "lens" /\ ws \in Lens /\ s = <<>>
        \/ kind = "tunstall" /\ ws \in {<<1, 3>>, <<2, 2>>, <<1, 1, 2>>, <<0, 4>>, <<1, 0, 3>>} /\ s = <<>>
Next == /\ kind = "race" /\ s # <<>> /\ s' \in NextAhead(ws, s) /\ UNCHANGED <<kind, ws>>

RaceSound == (kind = "race" /\ s = <<>>) => ~ UniquelyParsable(ws)
UPExact == (kind = "list") => (UniquelyParsable(ws) <=> ~ Ambiguous(ws))
PFSound == (kind = "list" /\ PrefixFree(ws)) =>
             /\ UniquelyParsable(ws)
             /\ \A n \in 0..3 : \A m \in WordsOf(3, n) :
                  LET p == Parse(ws, FVEncode(ws, 3, 1, m)) IN p.ok /\ p.idx = [j \in 1..n |-> m[j] + 1]
KraftUP == (kind = "list" /\ UniquelyParsable(ws)) => KraftCount([a \in 1..3 |-> Len(ws[a])], 2, 3) <= 8
CoverExact == (kind = "list") => (FullyCovering(ws, 2) <=> \A str \in WordsOf(2, 3) : \E a \in 1..3 : IsPre(ws[a], str))
HuffmanOptimal == (kind = "weights") =>
    LET ok == {l \in Lens : KraftCount(l, 2, 4) <= 16}
    IN /\ \A l \in ok : Dot(ws, l) >= OptimalCost(ws)
       /\ \E l \in ok : Dot(ws, l) = OptimalCost(ws)
CanonicalOK == (kind = "lens" /\ KraftCount(ws, 2, 4) <= 16) =>
    LET c == Canonical(ws, 2) IN PrefixFree(c) /\ \A a \in 1..4 : Len(c[a]) = ws[a]
FanoPF == (kind = "weights" /\ Sum(ws) > 0) => \E l \in Lens : FanoOK(ws, l) /\ KraftCount(l, 2, 4) <= 16

(* Tunstall: greedy mean length is the maximum over all complete trees with <= 2^n leaves *)
RECURSIVE Trees(_, _)
Trees(q, leaves) ==   \* sets of words: complete q-ary trees with exactly `leaves` leaves, at least the root split
    IF leaves = q THEN {{<<a>> : a \in 0..(q - 1)}}
    ELSE IF leaves < q THEN {}
    ELSE UNION {UNION {{(t \ {w}) \cup {Append(w, a) : a \in 0..(q - 1)}} : w \in t} : t \in Trees(q, leaves - (q - 1))}
SetMean(t, w, T, D) == LET f == CHOOSE f \in [1..Cardinality(t) -> t] : \A a, b \in 1..Cardinality(t) : a # b => f[a] # f[b] IN MeanLen(f, w, T, D)
TunstallOptimal == (kind = "tunstall") =>
    \A n \in 1..3 : Pow(2, n) >= Len(ws) /\ n <= (IF Len(ws) = 2 THEN 2 ELSE 3) =>
        LET q == Len(ws)
            all == UNION {Trees(q, l) : l \in q..Pow(2, n)}
        IN /\ \A t \in all : SetMean(t, ws, 4, 7) <= BestMean(ws, 4, n, 7)
           /\ \E t \in all : SetMean(t, ws, 4, 7) = BestMean(ws, 4, n, 7)
(* the exchange condition singles out exactly the best trees of each size, and the tree test the trees *)
ExchangeExact == (kind = "tunstall") =>
    LET q == Len(ws) IN \A l \in q..(IF q = 2 THEN 6 ELSE 7) : \A t \in Trees(q, l) :
        /\ CompleteTree(t, q)
        /\ \A w \in t : ~ CompleteTree(t \ {w}, q) /\ (Len(w) > 1 => ~ CompleteTree((t \ {w}) \cup {SubSeq(w, 1, Len(w) - 1)}, q))
        /\ ExchangeOptimal(t, ws, 4) <=> (\A t2 \in Trees(q, l) : SetMean(t2, ws, 4, 7) <= SetMean(t, ws, 4, 7))
BigOK == (kind = "weights") => \A x, y \in WordsOf(4, 2) :
    LET u == [a \in 1..4 |-> ws[a] * 700 + 1] IN
    BigLess(BigScale(BigWeight(u, x), 9999, 1), BigScale(BigWeight(u, y), 9999, 1)) <=> WordWeight(u, x) < WordWeight(u, y)
=============================================================================

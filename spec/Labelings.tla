----------------------------- MODULE Labelings -----------------------------
(* Binary labelings of indices 0..2^m-1: sequences of distinct rows of m     *)
(* bits, row i+1 labelling index i.                                          *)
EXTENDS Words
Natural(m) == [a \in 1..Pow(2, m) |-> Digits(a - 1, 2, m)]
RECURSIVE Reflected(_)
Reflected(m) == IF m = 0 THEN << <<>> >>
                ELSE LET r == Reflected(m - 1) n == Len(r) IN
                     [a \in 1..(2 * n) |-> IF a <= n THEN <<0>> \o r[a] ELSE <<1>> \o r[2 * n + 1 - a]]
Prod2(A, B) == [a \in 1..(Len(A) * Len(B)) |-> A[(a - 1) \div Len(B) + 1] \o B[((a - 1) % Len(B)) + 1]]
RECURSIVE ProdL(_)
ProdL(ms) == IF Len(ms) = 1 THEN ms[1] ELSE Prod2(ms[1], ProdL(SubSeq(ms, 2, Len(ms))))
RECURSIVE RepL(_, _)
RepL(ms, r) == IF r = 1 THEN ms ELSE ms \o RepL(ms, r - 1)
Hamming(u, v) == Cardinality({j \in 1..Len(u) : u[j] # v[j]})
RowsDistinct(A) == Cardinality({A[a] : a \in 1..Len(A)}) = Len(A)
IsLabeling(A) == /\ Len(A) = Pow(2, Len(A[1])) /\ RowsDistinct(A)
                 /\ \A a \in 1..Len(A) : \A j \in 1..Len(A[a]) : A[a][j] \in {0, 1}
IndexOf(A, row) == (CHOOSE a \in 1..Len(A) : A[a] = row) - 1
(* the mappers, on flat sequences *)
ToBits(A, ix) == Flatten([a \in 1..Len(ix) |-> A[ix[a] + 1]])
ToIdx(A, bs) == LET m == Len(A[1]) IN [a \in 1..(Len(bs) \div m) |-> IndexOf(A, SubSeq(bs, (a - 1) * m + 1, a * m))]
(* sum of the metrics of the indices whose bit j is b *)
RECURSIVE MargAux(_, _, _, _, _, _)
MargAux(A, w, j, b, a, acc) == IF a > Len(A) THEN acc ELSE MargAux(A, w, j, b, a + 1, IF A[a][j] = b THEN acc + w[a] ELSE acc)
Marg(A, w, j, b) == MargAux(A, w, j, b, 1, 0)
(* one row at a time, for labelings too wide to list *)
GrayRow(i, m) == [j \in 1..m |-> ((i \div Pow(2, m - j)) + (i \div Pow(2, m - j + 1))) % 2]
RECURSIVE WidthOf(_)
WidthOf(d) == CASE d.kind \in {"natural", "reflected"} -> d.m
                [] d.kind = "rect" -> d.mi + d.mq
                [] d.kind = "product" -> Sum([a \in 1..Len(d.parts) |-> WidthOf(d.parts[a])])
RECURSIVE RowOf(_, _)
RowOf(d, i) == CASE d.kind = "natural" -> Digits(i, 2, d.m)
                 [] d.kind = "reflected" -> GrayRow(i, d.m)
                 [] d.kind = "rect" -> GrayRow(i \div Pow(2, d.mq), d.mi) \o GrayRow(i % Pow(2, d.mq), d.mq)
                 [] d.kind = "product" -> IF Len(d.parts) = 1 THEN RowOf(d.parts[1], i)
                        ELSE LET rest == [kind |-> "product", parts |-> SubSeq(d.parts, 2, Len(d.parts))] w == Pow(2, WidthOf(rest)) IN
                             RowOf(d.parts[1], i \div w) \o RowOf(rest, i % w)
=============================================================================

---------------------------- MODULE IntegerCodes ----------------------------
(* Unary and Fibonacci codes.  Integers are limb pairs <<hi, lo>> base 10^9, *)
(* so that values up to 10^18 stay within TLC's 32-bit integers.             *)
EXTENDS Integers, Sequences
B == 1000000000
AddL(x, y) == LET lo == x[2] + y[2] IN IF lo >= B THEN <<x[1] + y[1] + 1, lo - B>> ELSE <<x[1] + y[1], lo>>
RECURSIVE FibAux(_, _, _, _)
FibAux(n, a, b, acc) == IF n = 0 THEN acc ELSE FibAux(n - 1, b, AddL(a, b), Append(acc, a))
(* weights 1, 2, 3, 5, 8, ... as limb pairs *)
FibWeights == FibAux(87, <<0, 1>>, <<0, 2>>, <<>>)

(* one Fibonacci codeword: positional weights, then an extra 1 *)
RECURSIVE WeighAux(_, _, _)
WeighAux(bits, j, acc) == IF j > Len(bits) THEN acc
                          ELSE WeighAux(bits, j + 1, IF bits[j] = 1 THEN AddL(acc, FibWeights[j]) ELSE acc)
FibValue(word) == WeighAux(SubSeq(word, 1, Len(word) - 1), 1, <<0, 0>>)
IsFibWord(word) == /\ Len(word) >= 2 /\ word[Len(word)] = 1 /\ word[Len(word) - 1] = 1
                   /\ \A j \in 1..(Len(word) - 2) : ~ (word[j] = 1 /\ word[j + 1] = 1)
IsUnaryWord(word) == /\ Len(word) >= 1 /\ word[Len(word)] = 0 /\ \A j \in 1..(Len(word) - 1) : word[j] = 1
UnaryValue(word) == <<0, Len(word) - 1>>

IsWord(kind, w) == IF kind = "fib" THEN IsFibWord(w) ELSE IsUnaryWord(w)
WordValue(kind, w) == IF kind = "fib" THEN FibValue(w) ELSE UnaryValue(w)
(* end of the first codeword of s starting after position p; 0 if none *)
RECURSIVE EndFrom(_, _, _, _)
EndFrom(kind, s, p, j) == IF j > Len(s) THEN 0
    ELSE IF kind = "fib" THEN (IF j >= p + 2 /\ s[j] = 1 /\ s[j - 1] = 1 THEN j ELSE EndFrom(kind, s, p, j + 1))
    ELSE IF s[j] = 0 THEN j ELSE EndFrom(kind, s, p, j + 1)
NextEnd(kind, s, p) == EndFrom(kind, s, p, p + 1)

(* Encoder / decoder over a bit stream, one codeword per step *)
VARIABLES kind, bits, at, vals
CodeStep == LET e == NextEnd(kind, bits, at) IN
            /\ e # 0 /\ IsWord(kind, SubSeq(bits, at + 1, e))
            /\ vals' = Append(vals, WordValue(kind, SubSeq(bits, at + 1, e)))
            /\ at' = e /\ UNCHANGED <<kind, bits>>
=============================================================================

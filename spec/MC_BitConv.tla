----------------------------- MODULE MC_BitConv -----------------------------
(* The conversion as a machine: divide by two and record the remainder, at   *)
(* the end of the word its order prescribes; then read the word back by      *)
(* accumulating positional weights.                                          *)
EXTENDS BitConv, Integers, TLC
CONSTANTS MaxW
VARIABLES n, w, order, rest, word, k, back
vars == <<n, w, order, rest, word, k, back>>
P(e) == 2 ^ e
Init == /\ w \in 0..MaxW /\ n \in 0..(P(MaxW) - 1) /\ order \in {"LSB-first", "MSB-first"}
        /\ rest = n /\ word = <<>> /\ k = 0 /\ back = 0
Write == /\ k < w /\ Len(word) = k
         /\ word' = (IF order = "LSB-first" THEN Append(word, rest % 2) ELSE <<rest % 2>> \o word)
         /\ rest' = rest \div 2 /\ k' = k + 1 /\ UNCHANGED <<n, w, order, back>>
Read == /\ Len(word) = w /\ k >= w /\ k < 2 * w
        /\ back' = back + (IF order = "LSB-first" THEN word[k - w + 1] * P(k - w) ELSE word[k - w + 1] * P(2 * w - 1 - k))
        /\ k' = k + 1 /\ UNCHANGED <<n, w, order, rest, word>>
Next == Write \/ Read
RECURSIVE Digs(_)
Digs(x) == IF x = 0 THEN <<>> ELSE <<x % 2>> \o Digs(x \div 2)
WordRight == Len(word) = w => word = WordOf(Digs(n), w, order)
Inverse == k = 2 * w => /\ back = n % P(w) /\ Digs(back) = IntOf(word, order)
Flip == Len(word) = w => WordOf(Digs(n), w, "LSB-first") = [j \in 1..w |-> WordOf(Digs(n), w, "MSB-first")[w + 1 - j]]
=============================================================================

------------------------------ MODULE BitConv ------------------------------
(* Conversion between integers and bit words.  An integer of any size is    *)
(* denoted by its binary digits without leading zeros, least significant     *)
(* first; a word of width w has digit j at position j (LSB first) or w+1-j   *)
(* (MSB first).                                                              *)
EXTENDS Naturals, Sequences
BitAt(x, j) == IF j <= Len(x) THEN x[j] ELSE 0
WordOf(x, w, order) == [j \in 1..w |-> BitAt(x, IF order = "LSB-first" THEN j ELSE w + 1 - j)]
RECURSIVE TrimB(_, _)
TrimB(s, l) == IF l = 0 THEN <<>> ELSE IF s[l] = 1 THEN SubSeq(s, 1, l) ELSE TrimB(s, l - 1)
IntOf(s, order) == LET d == IF order = "LSB-first" THEN s ELSE [j \in 1..Len(s) |-> s[Len(s) + 1 - j]] IN TrimB(d, Len(s))
=============================================================================

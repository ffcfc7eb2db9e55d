------------------------------ MODULE MC_Signal ------------------------------
(* Design model: multirate and convolution identities over all short signals. *)
EXTENDS Signal
CONSTANTS N, Vals
VARIABLES x, h, g, f, off
vars == <<x, h, g, f, off>>
VQ == {-1, 0, 2}
VT == {-1, 0, 1, 2}
R(s) == [j \in 1..Len(s) |-> <<s[j], 0>>]
Sig(s) == [shape |-> <<Len(s)>>, d |-> R(s)]
Seqs(n) == UNION {[1..k -> Vals] : k \in 1..n}
(* the signal first, the filters and rates in a second step (so that TLC's workers share the evaluation) *)
Init == x \in Seqs(N) /\ h = << >> /\ g = << >> /\ f = 0 /\ off = 0
Next == /\ f = 0 /\ x' = x
        /\ h' \in Seqs(2) /\ g' \in Seqs(2)
        /\ f' \in 1..3 /\ off' \in 0..2 /\ off' < f'
Ready == f > 0
Spec == Init /\ [][Next]_vars
X == Sig(x)
H == R(h)
G == R(g)
Cv(a, b) == Convolve(a, 1, b, "full")
Inverse0 == /\ Compress(Expand(X, 1, f, off), 1, f, off) = X
           /\ \A o \in 0..(f - 1) : o # off => \A k \in DOMAIN Compress(Expand(X, 1, f, off), 1, f, o).d : Compress(Expand(X, 1, f, off), 1, f, o).d[k] = Z
(* the polyphase components put the signal together again *)
RECURSIVE SumAll(_, _)
PadTo(y, n) == [shape |-> <<n>>, d |-> [k \in 1..n |-> IF k <= Len(y.d) THEN y.d[k] ELSE Z]]
SumAll(o, n) == IF o = f THEN [k \in 1..n |-> Z]
                ELSE LET c == PadTo(Compress(X, 1, f, o), CeilDiv(Len(x), f))
                         e == Expand(c, 1, f, o) s == SumAll(o + 1, n)
                     IN [k \in 1..n |-> Add(e.d[k], s[k])]
Polyphase0 == SumAll(0, Len(x)) = X.d
Commutes0 == Cv(X, H) = Cv(Sig(h), R(x))
Associates0 == Cv(Cv(X, H), G) = Cv(X, Cv(Sig(h), G).d)
(* noble identity: filtering then expanding is expanding then filtering by the expanded filter *)
Noble0 == LET a == Expand(Cv(X, H), 1, f, 0)
             b == Cv(Expand(X, 1, f, 0), Expand(Sig(h), 1, f, 0).d)
         IN \A k \in 1..Len(a.d) : a.d[k] = b.d[k]
Modes0 == LET full == Cv(X, H).d n == Len(x) m == Len(h) IN
    /\ Convolve(X, 1, H, "valid").d = SubSeq(full, Min2(n, m), Max2(n, m))
    /\ Len(Convolve(X, 1, H, "same").d) = Max2(n, m)
(* convolution theorem at n = 4, where the twiddles are exact *)
Circ0 == Len(x) + Len(h) <= 5 =>
    LET n == 4 U(y) == [k \in 1..n |-> <<y.d[k][1] \div TrigS, y.d[k][2] \div TrigS>>]
        XF == U(Dft(X, 1, n)) HF == U(Dft(Sig(h), 1, n)) Y == Dft(Cv(X, H), 1, n)
    IN \A k \in 1..n : Y.d[k] = <<TrigS * MulC(XF[k], HF[k])[1], TrigS * MulC(XF[k], HF[k])[2]>>
Inverse == Ready => Inverse0
Polyphase == Ready => Polyphase0
Commutes == Ready => Commutes0
Associates == Ready => Associates0
Noble == Ready => Noble0
Modes == Ready => Modes0
Circ == Ready => Circ0
=============================================================================

--------------------------- MODULE CyclicMachine ---------------------------
(* The shift-register circuits of a cyclic code with generator polynomial g. *)
(* One word is fed to a divider; the register holds the remainder of what    *)
(* was consumed.  The systematic encoder is the divider fed with the message *)
(* followed by m zeros; a cyclic shift of the word is a one-step update.     *)
EXTENDS Gf2, TLC
CONSTANTS NMAX
VARIABLES n, g, word, pos, reg
vars == <<n, g, word, pos, reg>>
Polys(d) == Pow(2, d)..(Pow(2, d + 1) - 1)
Modulus(nn) == Pow(2, nn) + 1
Divides(nn) == {x \in 1..(Modulus(nn)) : DegP(x) < nn /\ ModP(Modulus(nn), x) = 0}
m == DegP(g)
Init == /\ n \in 1..NMAX /\ g \in Divides(n) /\ word \in 0..(Pow(2, n) - 1) /\ pos = n /\ reg = 0
(* highest coefficient first *)
Feed == /\ pos > 0 /\ pos' = pos - 1
        /\ reg' = IF m = 0 THEN 0 ELSE LET y == 2 * reg + ((word \div Pow(2, pos - 1)) % 2) IN IF y >= Pow(2, m) THEN y ^^ g ELSE y
        /\ UNCHANGED <<n, g, word>>
Shifted == IF word >= Pow(2, n - 1) THEN 2 * word - Pow(2, n) + 1 ELSE 2 * word
Shift == /\ pos = 0 /\ word' = Shifted /\ pos' = n /\ reg' = 0 /\ UNCHANGED <<n, g>>
Next == Feed \/ Shift
Spec == Init /\ [][Next]_vars

RegisterIsRemainder == reg = ModP(word \div Pow(2, pos), g)
Codeword(x) == ModP(x, g) = 0
ShiftInvariant == Codeword(word) <=> Codeword(Shifted)
(* the word that keeps the k high coefficients and whose low part is the remainder is a codeword *)
SystematicWord == LET hi == (word \div Pow(2, m)) * Pow(2, m) IN Codeword(hi ^^ ModP(hi, g))
(* coefficient-sequence arithmetic agrees with packed arithmetic *)
Repr == pos = n => Pack(PadS(ModS(Unpack(word, n), Unpack(g, m + 1)), n)) = ModP(word, g)
=============================================================================

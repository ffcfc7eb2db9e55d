------------------------- MODULE IntegerCodesTrace -------------------------
EXTENDS IntegerCodes, TraceKit
VARIABLES c, i
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
(* An encode event carries the integers and the produced bits, a decode event *)
(* the bits and the returned integers; both are read by the same machine.     *)
TheBits(e) == IF e.op = "encode" THEN (IF e.ok THEN e.v ELSE <<>>) ELSE e.x
Binary(s) == \A j \in 1..Len(s) : s[j] \in {0, 1}
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ kind = Cases[c].kind
        /\ bits = (IF Cases[c].ev = <<>> THEN <<>> ELSE TheBits(Cases[c].ev[1])) /\ at = 0 /\ vals = <<>>
Bad(e) ==
    IF e.op = "encode" THEN
        IF e.reject THEN Viol("inadmissible-accepted", Refused(e))
        ELSE IF ~e.ok THEN {"raised"}
        ELSE Viol("not-codewords", at = Len(bits) /\ Binary(bits)) \cup Viol("wrong-integers", vals = e.x)
    ELSE IF at = Len(bits) THEN (IF ~e.ok THEN {"raised"} ELSE Viol("decode", e.v = vals))
    ELSE Viol("incomplete-accepted", Refused(e))
CanStep == NextEnd(kind, bits, at) # 0
Done == (i + 1 = Len(Ev)) => Accept(c)
Next == /\ i < Len(Ev)
        /\ IF CanStep /\ Binary(bits) THEN CodeStep /\ UNCHANGED <<c, i>>
           ELSE /\ Bad(E) # {} => Reject(c, i + 1, Bad(E))
                /\ Done /\ i' = i + 1 /\ c' = c /\ kind' = kind /\ at' = 0 /\ vals' = <<>>
                /\ bits' = IF i + 2 <= Len(Ev) THEN TheBits(Ev[i + 2]) ELSE <<>>
=============================================================================

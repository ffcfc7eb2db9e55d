----------------------------- MODULE PurityTrace -----------------------------
(* Every operation is a function of the value of its arguments: the state of  *)
(* the specification is the table of what each (operation, arguments) pair    *)
(* gave when first called, on whichever object of equal definition, and in    *)
(* whichever container the arguments came.                                    *)
EXTENDS TraceKit
VARIABLES c, i, memo
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Key(e) == <<e.f, e.k>>
Outcome(e) == IF e.ok THEN <<TRUE, e.v>> ELSE <<FALSE, e.err>>
Bad(e) ==
    CASE e.op = "call" -> Viol("argument-modified", e.unmod)
                          \cup Viol("different-result", Key(e) \in DOMAIN memo => memo[Key(e)] = Outcome(e))
      [] e.op = "held" -> Viol("earlier-result-changed", e.ok /\ e.v = Ev[e.at].v)
Init == c \in 1..Len(Cases) /\ i = 0 /\ memo = << >>
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
        /\ memo' = IF E.op = "call" THEN (IF Key(E) \in DOMAIN memo THEN memo ELSE [q \in DOMAIN memo \cup {Key(E)} |-> IF q = Key(E) THEN Outcome(E) ELSE memo[q]]) ELSE memo
=============================================================================

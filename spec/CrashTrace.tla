----------------------------- MODULE CrashTrace -----------------------------
(* No specification has an action "the implementation raises an exception    *)
(* in a call that is admissible": such an event is never explained.          *)
EXTENDS TraceKit
VARIABLES c, i
Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ i < Len(Cases[c].ev)
        /\ Reject(c, i + 1, {"unexpected-exception"})
        /\ i' = i + 1 /\ c' = c
        /\ (i + 1 = Len(Cases[c].ev)) => Accept(c)
=============================================================================

----------------------------- MODULE DomainTrace -----------------------------
(* Each event is one request put to the implementation.                       *)
EXTENDS Domains, TraceKit
VARIABLES c, i
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
Bad(e) == LET q == [c |-> e.kind, p |-> e.p] IN
          IF Adm(q) THEN IF ~e.ok THEN {"domain-refused-" \o e.kind} ELSE Viol("size-" \o e.kind, e.v = Size(q))
                    ELSE Viol("invalid-accepted-" \o e.kind, Refused(e))
Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================

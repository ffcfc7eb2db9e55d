----------------------------- MODULE BitsTrace -----------------------------
EXTENDS BitConv, TraceKit
VARIABLES c, i
S == Cases[c]
Ev == S.ev
E == Ev[i + 1]
RECURSIVE Prod(_, _)
Prod(s, j) == IF j > Len(s) THEN 1 ELSE s[j] * Prod(s, j + 1)
Front(s) == SubSeq(s, 1, Len(s) - 1)
(* x: integers as digit sequences with a shape; v: bits with a shape *)
ToBits(e) == Viol("shape", e.v.shape = Append(e.x.shape, e.w))
             \cup (IF Len(e.v.d) # Len(e.x.d) * e.w THEN {"size"}
                   ELSE Viol("bits", \A a \in 1..Len(e.x.d) : SubSeq(e.v.d, (a - 1) * e.w + 1, a * e.w) = WordOf(e.x.d[a], e.w, e.order)))
ToInt(e) == LET w == e.x.shape[Len(e.x.shape)] IN
            Viol("shape", e.v.shape = Front(e.x.shape))
            \cup (IF Len(e.v.d) # Prod(Front(e.x.shape), 1) THEN {"size"}
                  ELSE Viol("integers", \A a \in 1..Len(e.v.d) : e.v.d[a] = IntOf(SubSeq(e.x.d, (a - 1) * w + 1, a * w), e.order)))
Bad(e) == CASE e.op = "bad" -> Viol("invalid-accepted", Refused(e))
            [] ~e.ok -> {"raised"}
            [] e.op = "i2b" -> ToBits(e)
            [] e.op = "b2i" -> ToInt(e)
            [] e.op = "rt" -> Viol("round-trip", e.v = e.x)
            [] e.op = "same" -> Viol("argument-modified", e.v)
Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ i < Len(Ev)
        /\ LET bad == Bad(E) IN bad # {} => Reject(c, i + 1, bad)
        /\ (i + 1 = Len(Ev)) => Accept(c)
        /\ i' = i + 1 /\ c' = c
=============================================================================

-------------------------- MODULE MC_SlidingWindow --------------------------
EXTENDS SlidingWindow
CONSTANT MaxMsg
Pars == {[kind |-> k, S |-> s, L |-> l, X |-> x, Y |-> y, buf |-> b] :
           k \in {"77", "SS"}, s \in 1..3, l \in 1..3, x \in 2..3, y \in 2..3, b \in UNION {WordsOf(2, n) : n \in 1..3}}
ParsOK == {p \in Pars : Len(p.buf) = p.S}
Msgs(p) == UNION {WordsOf(p.X, n) : n \in 0..(IF p.X = 2 THEN MaxMsg ELSE MaxMsg - 1)}
Init == SWInit(ParsOK, Msgs)
Next == SWNext
=============================================================================

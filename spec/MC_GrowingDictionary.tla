------------------------ MODULE MC_GrowingDictionary ------------------------
EXTENDS GrowingDictionary
CONSTANT MaxMsg
Pars == {[kind |-> k, X |-> x, Y |-> 2] : k \in {"78", "W"}, x \in 2..3}
Msgs(p) == UNION {WordsOf(p.X, n) : n \in 0..(IF p.X = 2 THEN MaxMsg ELSE MaxMsg - 3)}
Init == GDInit(Pars, Msgs)
Next == GDNext
=============================================================================

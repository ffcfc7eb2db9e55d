INIT Init
NEXT Next
INVARIANTS Addition Unit Powers Fix Monotone

CONSTANTS N = 2 Deg = 3 L = 6
INIT Init
NEXT Next
INVARIANTS MasseySain FreeRight

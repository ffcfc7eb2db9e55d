CONSTANTS N = 2 Deg = 4 L = 8
INIT Init
NEXT Next
INVARIANTS MasseySain FreeRight

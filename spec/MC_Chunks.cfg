INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 6 MaxChunk = 6 MaxEmpty = 1 CarryMod = 5
INVARIANT Invisible

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS ReedCorrects BerlekampCorrects BerlekampNewton WagnerML SCNoiseless

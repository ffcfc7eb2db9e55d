INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS ReedCorrects BerlekampCorrects BerlekampNewton WagnerML SCNoiseless

CONSTANTS NMAX = 9
SPECIFICATION Spec
INVARIANTS RegisterIsRemainder ShiftInvariant SystematicWord Repr
CHECK_DEADLOCK FALSE

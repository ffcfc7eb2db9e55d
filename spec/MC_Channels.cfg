SPECIFICATION Spec
CONSTANTS
  MaxD = 4
  Len0 = 2
INVARIANTS SupportInv ReplayInv
CHECK_DEADLOCK FALSE

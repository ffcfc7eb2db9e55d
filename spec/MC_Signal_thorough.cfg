SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals <- VT
INVARIANTS Inverse Polyphase Commutes Associates Noble Modes Circ
CHECK_DEADLOCK FALSE

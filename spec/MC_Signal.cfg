SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals <- VQ
INVARIANTS Inverse Polyphase Commutes Associates Noble Modes Circ
CHECK_DEADLOCK FALSE

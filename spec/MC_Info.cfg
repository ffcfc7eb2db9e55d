SPECIFICATION Spec
CONSTANTS
  DD = 4
  Full = {}
INVARIANTS EntropyBounds Gibbs MutualIdentities Minimax ClosedForms
CHECK_DEADLOCK FALSE

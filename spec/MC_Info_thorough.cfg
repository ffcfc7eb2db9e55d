SPECIFICATION Spec
CONSTANTS
  DD = 4
  Full = {3}
INVARIANTS EntropyBounds Gibbs MutualIdentities Minimax ClosedForms
CHECK_DEADLOCK FALSE

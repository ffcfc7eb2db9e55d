INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 2 X = 2 Y = 2 L = 3 Tau = 1 IM = {0, 1, 100000000}
INVARIANTS Optimal Attained MetsRight WindowRight DecisionsRight ForwardRight PosteriorsRight LeadingRight LoweredRight

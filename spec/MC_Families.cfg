CONSTANTS MU = 3
SPECIFICATION Spec
INVARIANTS HammingOK SimplexOK RMOK PolarOK LexiOK LexiBasisOK RemOK CldOK PascalOK
CHECK_DEADLOCK FALSE

CONSTANTS KMAX = 4 MMAX = 4
SPECIFICATION Spec
INVARIANTS AllOK PopOK
CHECK_DEADLOCK FALSE

CONSTANTS N = 3 M = 2 DEPTH = 3
SPECIFICATION GenSpec
INVARIANTS AnswerOK BfsOK Emit
CHECK_DEADLOCK FALSE

CONSTANTS N = 4 M = 3 DEPTH = 2
SPECIFICATION Spec
INVARIANTS AnswerOK BfsOK CosetOpOK
CHECK_DEADLOCK FALSE

CONSTANTS N = 4 M = 2 DEPTH = 2
SPECIFICATION Spec
INVARIANTS AnswerOK BfsOK CosetOpOK
CHECK_DEADLOCK FALSE

CONSTANTS Vals = {0, 1, 2} Objs = {1, 2} DEPTH = 4 SLOPPY = "no"
SPECIFICATION Spec
INVARIANTS ArgumentsUntouched ResultsStay FunctionOfValue
CHECK_DEADLOCK FALSE

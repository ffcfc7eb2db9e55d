CONSTANTS Vals = {0, 1} Objs = {1, 2} DEPTH = 4 SLOPPY = "no"
SPECIFICATION Spec
INVARIANTS ArgumentsUntouched ResultsStay FunctionOfValue Emit
CHECK_DEADLOCK FALSE

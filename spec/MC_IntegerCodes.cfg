INIT Init
NEXT Next
CONSTANT N = 10
INVARIANTS Inverse Positive

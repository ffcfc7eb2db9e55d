INIT Init
NEXT Next
CONSTANT MaxMsg = 9
INVARIANTS Lossless InStep NoDuplicates Progress Deterministic

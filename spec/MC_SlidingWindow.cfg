INIT Init
NEXT Next
CONSTANT MaxMsg = 4
INVARIANTS Lossless InRange Progress FieldsFit

INIT Init
NEXT Next
CONSTANTS R = 9
INVARIANTS Rules Geometry Mapping

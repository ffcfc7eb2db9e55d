SPECIFICATION Spec
CONSTANTS MaxLen = 5 FieldLen = 7
INVARIANTS Bezout CommonDivisors AtEnd Ring Rabin Orders FieldAxioms
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 6 FieldLen = 9
INVARIANTS Bezout CommonDivisors AtEnd Ring Rabin Orders FieldAxioms
CHECK_DEADLOCK FALSE

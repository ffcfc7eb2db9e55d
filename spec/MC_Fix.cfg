SPECIFICATION Spec
CONSTANTS D = 360
INVARIANTS Turn OneTurn Parity Sincs Powers Roots Division Consts

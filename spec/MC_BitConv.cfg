INIT Init
NEXT Next
CONSTANTS MaxW = 8
INVARIANTS WordRight Inverse Flip

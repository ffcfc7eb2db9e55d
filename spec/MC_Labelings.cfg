INIT Init
NEXT Next
CONSTANTS MaxM = 3 MaxLen = 3
INVARIANTS Bijection Delivered AllDelivered GrayRing Grid Binary

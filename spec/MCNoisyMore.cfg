CONSTANTS
 W = 2
 Poly = 3
 Pts <- Four
 Weight = 2
 PadKeys = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Decoded
CHECK_DEADLOCK FALSE

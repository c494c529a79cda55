CONSTANTS
 W = 3
 Poly = 3
 Pts <- Six
 Weight = 2
 PadKeys = {5}
SPECIFICATION Spec
INVARIANTS Decoded
CHECK_DEADLOCK FALSE

CONSTANTS
 W = 3
 Poly = 3
 N = 5
 L = 2
 T = 1
INIT Init3
NEXT Next
INVARIANTS Homomorphic
CHECK_DEADLOCK FALSE

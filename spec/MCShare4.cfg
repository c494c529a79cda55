CONSTANTS
 W = 3
 Poly = 3
 N = 4
 L = 1
 T = 1
INIT Init4
NEXT Next
INVARIANTS Homomorphic Tamper
CHECK_DEADLOCK FALSE

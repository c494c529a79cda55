CONSTANTS
 W = 2
 Poly = 3
 N = 3
 L = 1
 T = 1
SPECIFICATION Spec
INVARIANTS Homomorphic Tamper
CHECK_DEADLOCK FALSE

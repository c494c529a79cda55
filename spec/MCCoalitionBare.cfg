CONSTANTS
 W = 2
 Poly = 3
 N = 3
 T = 1
 L = 1
 How = "bare"
SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE

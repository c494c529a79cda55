CONSTANTS
 W = 2
 Poly = 3
 N = 3
 T = 1
 L = 1
 How = "thin"
SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE

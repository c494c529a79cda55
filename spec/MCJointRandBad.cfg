CONSTANTS
 W = 2
 Poly = 3
 N = 3
 T = 1
 L = 1
 Kind = "rand"
 Mat = "bad"
SPECIFICATION Spec
INVARIANTS Valid Unpredictable
CHECK_DEADLOCK FALSE

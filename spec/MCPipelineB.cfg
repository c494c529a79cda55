CONSTANTS
 N = 2
 Blocks = 1
 Gates <- Four
 Base = 3
 Bound = "right"
 Mode = "own"
SPECIFICATION Spec
INVARIANTS NoError Completes NoResidue
CHECK_DEADLOCK FALSE

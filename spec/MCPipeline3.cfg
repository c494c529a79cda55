CONSTANTS
 N = 3
 Blocks = 1
 Gates <- OneInv
 Base = 2
 Bound = "right"
 Mode = "own"
SPECIFICATION Spec
INVARIANTS NoError Completes NoResidue
CHECK_DEADLOCK FALSE

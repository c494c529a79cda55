CONSTANTS
 N = 2
 Blocks = 1
 Gates <- AndXor
 Base = 2
 Bound = "gates"
 Mode = "own"
SPECIFICATION Spec
INVARIANTS NoError Completes NoResidue
CHECK_DEADLOCK FALSE

CONSTANTS
 N = 2
 Blocks = 1
 Gates <- OneAnd
 Base = 2
 Bound = "right"
 Mode = "shared"
SPECIFICATION Spec
INVARIANTS NoError Completes NoResidue
CHECK_DEADLOCK FALSE

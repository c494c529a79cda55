CONSTANTS
 W = 3
 Poly = 3
 N = 3
 T = 1
 L = 1
 Inst <- TwoInst
 Coins <- TwoCoins
 LeaderA = 2
 LeaderB = 3
 After = 1
 SameId = FALSE
SPECIFICATION Spec
INVARIANTS Correct Residue Completes
CHECK_DEADLOCK FALSE

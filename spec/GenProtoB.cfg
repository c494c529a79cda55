CONSTANTS
 W = 3
 Poly = 3
 N = 3
 T = 1
 L = 1
 Inst <- TwoInst
 Coins <- TwoCoins
 LeaderA = 2
 LeaderB = 2
 After = 0
 SameId = FALSE
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE

CONSTANTS
 Ns = {3, 4}
 Ls = {1}
 T = 1
 KeyLen = 1
 MssgLen = 1
 MaxBlk = 1
 Less = "zero"
SPECIFICATION Spec
INVARIANTS Once Suffices Exact
CHECK_DEADLOCK FALSE

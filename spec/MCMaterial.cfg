CONSTANTS
 Ns = {3}
 Ls = {1}
 T = 1
 KeyLen = 1
 MssgLen = 2
 MaxBlk = 2
 Less = "no"
SPECIFICATION Spec
INVARIANTS Once Suffices Exact
CHECK_DEADLOCK FALSE

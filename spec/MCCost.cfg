CONSTANTS
 MaxN = 7
 MaxL = 3
 MaxKey = 2
 MaxMssg = 2
 MaxBlocks = 3
SPECIFICATION Spec
INVARIANTS Never Equal Near
CHECK_DEADLOCK FALSE

CONSTANTS
 MaxN = 12
 MaxL = 4
 MaxKey = 3
 MaxMssg = 3
 MaxBlocks = 5
SPECIFICATION Spec
INVARIANTS Never Equal Near
CHECK_DEADLOCK FALSE

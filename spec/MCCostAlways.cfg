CONSTANTS
 MaxN = 7
 MaxL = 3
 MaxKey = 2
 MaxMssg = 2
 MaxBlocks = 3
SPECIFICATION Spec
INVARIANTS Always
CHECK_DEADLOCK FALSE

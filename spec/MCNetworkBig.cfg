CONSTANTS
  Party = {0, 1}
  Ids = {0, 1}
  All = 65535
  MaxSend = 3
  MaxRecv = 2
SPECIFICATION SafeSpec
INVARIANTS RestIsQuiet PoolDisjoint
PROPERTIES Refines
CHECK_DEADLOCK FALSE

CONSTANTS
  Party = {0, 1}
  Ids = {0, 1}
  All = 65535
  MaxSend = 2
  MaxRecv = 2
SPECIFICATION Spec
INVARIANTS RestIsQuiet PoolDisjoint
PROPERTIES Refines EventuallyQuiet
CHECK_DEADLOCK FALSE

CONSTANTS
  Party = {0, 1, 2}
  Ids = {0, 1}
  All = 65535
  MaxSend = 20
  MaxLen = 24
SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

CONSTANTS
  Party = {0, 1, 2}
  Phases = 2
  Rounds = 3
  MaxLen = 50
SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

CONSTANTS
  N = 3
  MaxLen = 6
  MaxOther = 1
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

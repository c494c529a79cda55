CONSTANTS
  N = 3
  MaxLen = 5
  MaxOther = 1
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

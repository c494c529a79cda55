CONSTANTS
  Base = 2
  MaxBound = 5
  MaxNodes = 6
SPECIFICATION Spec
INVARIANTS Sufficient Fresh
CHECK_DEADLOCK FALSE

CONSTANTS
  Base = 2
  MaxBound = 6
  MaxNodes = 9
SPECIFICATION Spec
INVARIANTS Sufficient Fresh
CHECK_DEADLOCK FALSE

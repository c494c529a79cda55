CONSTANTS
 NIn = 1
 NGates = 3
 Wrong = FALSE
SPECIFICATION Spec
INVARIANTS Evaluated Completes
CHECK_DEADLOCK FALSE

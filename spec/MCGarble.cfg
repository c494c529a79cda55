CONSTANTS
 NIn = 2
 NGates = 2
 Wrong = FALSE
SPECIFICATION Spec
INVARIANTS Evaluated Completes
CHECK_DEADLOCK FALSE

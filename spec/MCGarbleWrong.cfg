CONSTANTS
 NIn = 2
 NGates = 2
 Wrong = TRUE
SPECIFICATION Spec
INVARIANTS Evaluated Completes
CHECK_DEADLOCK FALSE

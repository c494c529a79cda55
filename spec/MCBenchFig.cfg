CONSTANTS
 N = 2
 Reps = 2
 Save = TRUE
 Final = TRUE
SPECIFICATION FSpec
INVARIANTS Bounded
CHECK_DEADLOCK FALSE

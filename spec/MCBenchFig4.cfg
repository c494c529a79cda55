CONSTANTS
 N = 2
 Reps = 4
 Save = TRUE
 Final = TRUE
SPECIFICATION FSpec
INVARIANTS Bounded
CHECK_DEADLOCK FALSE

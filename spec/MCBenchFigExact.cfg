CONSTANTS
 N = 2
 Reps = 2
 Save = TRUE
 Final = TRUE
SPECIFICATION FSpec
INVARIANTS Exact
CHECK_DEADLOCK FALSE

CONSTANTS
 N = 2
 Reps = 1
 Save = TRUE
 Final = FALSE
SPECIFICATION Spec
INVARIANTS Together NoResidue
PROPERTIES AllExit
CHECK_DEADLOCK FALSE

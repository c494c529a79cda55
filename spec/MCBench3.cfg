CONSTANTS
 N = 3
 Reps = 1
 Save = TRUE
 Final = TRUE
SPECIFICATION Spec
INVARIANTS Together NoResidue
PROPERTIES AllExit
CHECK_DEADLOCK FALSE

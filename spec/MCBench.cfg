CONSTANTS
 N = 2
 Reps = 2
 Save = TRUE
 Final = TRUE
SPECIFICATION Spec
INVARIANTS Together NoResidue
PROPERTIES AllExit
CHECK_DEADLOCK FALSE

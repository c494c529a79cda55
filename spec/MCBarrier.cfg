CONSTANTS
  Party = {0, 1, 2}
  Phases = 2
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Safe NoResidue
PROPERTIES Live
CHECK_DEADLOCK FALSE

CONSTANTS
  Party = {0, 1}
  Phases = 2
  Rounds = 4
SPECIFICATION Spec
INVARIANTS Safe NoResidue
PROPERTIES Live
CHECK_DEADLOCK FALSE

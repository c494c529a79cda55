CONSTANTS
  N = 3
  MaxLen = 6
  MaxOther = 1
SPECIFICATION Spec
INVARIANTS ResultRight CompleteIff RestKept
CHECK_DEADLOCK FALSE

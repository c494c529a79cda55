CONSTANTS
  N = 4
  Bytes = 1
SPECIFICATION Spec
INVARIANTS RightPeer UpIsComplete
CHECK_DEADLOCK FALSE

CONSTANTS
  N = 3
  Bytes = 2
SPECIFICATION Spec
INVARIANTS RightPeer UpIsComplete
PROPERTIES AllUp
CHECK_DEADLOCK FALSE

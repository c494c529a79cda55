CONSTANTS
  MaxMsgs = 2
  IdLens = {0, 1, 2}
  DataLens = {0, 1, 3}
  Short = 2
SPECIFICATION Spec
INVARIANTS Intact
PROPERTIES AllOut
CHECK_DEADLOCK FALSE

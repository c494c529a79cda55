CONSTANTS
  Party <- TraceParty
  All = 65535
  CheckStats = TRUE
SPECIFICATION TraceSpec
INVARIANT NoDouble
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

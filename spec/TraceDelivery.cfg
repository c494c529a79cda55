CONSTANTS
  Party <- TraceParty
  All = 65535
  CheckStats = FALSE
SPECIFICATION TraceSpec
INVARIANT NoDouble
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANTS Safe
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

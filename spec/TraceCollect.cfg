SPECIFICATION TraceSpec
INVARIANTS ResultRight CompleteIff RestKept
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

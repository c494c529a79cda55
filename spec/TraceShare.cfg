CONSTANTS
 W <- TraceW
 Poly <- TracePoly
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

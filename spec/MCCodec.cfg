CONSTANTS
 MaxW = 9
 MaxLen = 3
SPECIFICATION Spec
INVARIANTS RoundTrip Size MatTrip
CHECK_DEADLOCK FALSE

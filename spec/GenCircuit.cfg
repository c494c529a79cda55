CONSTANTS
 MaxIn = 2
 MinGates = 0
 MaxGates = 2
 AnyOrder = TRUE
 Outs = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

CONSTANTS
 MaxIn = 6
 MinGates = 1
 MaxGates = 14
 AnyOrder = TRUE
 Outs = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

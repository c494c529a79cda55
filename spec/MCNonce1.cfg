CONSTANTS
 Wires = {1, 2, 3}
 L = 1
 MaxBlocks = 4
 Rule = "shared"
 Mod = 2
SPECIFICATION Spec
INVARIANT OnceWithKey
CHECK_DEADLOCK FALSE

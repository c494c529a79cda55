CONSTANTS
 Wires = {1, 2, 3}
 L = 2
 MaxBlocks = 3
 Rule = "shared"
 Mod = 2
SPECIFICATION Spec
INVARIANT OnceWithKey
CHECK_DEADLOCK FALSE

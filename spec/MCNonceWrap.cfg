CONSTANTS
 Wires = {1, 2}
 L = 1
 MaxBlocks = 3
 Rule = "wrap"
 Mod = 2
SPECIFICATION Spec
INVARIANT OnceWithKey
CHECK_DEADLOCK FALSE

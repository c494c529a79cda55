CONSTANTS
 NIn = 2
 NGates = 3
SPECIFICATION Spec
INVARIANTS Formed Confluent Complete
CHECK_DEADLOCK FALSE

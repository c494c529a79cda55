CONSTANTS
 W = 1
 Poly = 1
SPECIFICATION Spec
INVARIANTS FieldAxioms Interpolates
CHECK_DEADLOCK FALSE

CONSTANTS
 W = 3
 Poly = 3
SPECIFICATION Spec
INVARIANTS FieldAxioms Interpolates
CHECK_DEADLOCK FALSE

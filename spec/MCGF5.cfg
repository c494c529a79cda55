CONSTANTS
 W = 5
 Poly = 5
SPECIFICATION Spec
INVARIANTS FieldAxioms Interpolates
CHECK_DEADLOCK FALSE

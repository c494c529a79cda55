CONSTANTS
 W = 2
 Poly = 3
SPECIFICATION Spec
INVARIANTS FieldAxioms Interpolates
CHECK_DEADLOCK FALSE

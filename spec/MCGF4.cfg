CONSTANTS
 W = 4
 Poly = 3
SPECIFICATION Spec
INVARIANTS FieldAxioms Interpolates
CHECK_DEADLOCK FALSE

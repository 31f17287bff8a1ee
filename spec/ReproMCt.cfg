SPECIFICATION Spec
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
CONSTANTS
 A = 3
 R = 3
 W = 3

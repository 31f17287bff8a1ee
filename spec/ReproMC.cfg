SPECIFICATION Spec
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
CONSTANTS
 A = 2
 R = 2
 W = 3

SPECIFICATION Spec
CONSTANTS Size = 1 Degree = 1 Vals = {0, 1, 3} K = 2
INVARIANTS CoverOK CountOK SameOK
PROPERTY Finishes
CHECK_DEADLOCK FALSE

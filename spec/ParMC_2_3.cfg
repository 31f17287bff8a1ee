SPECIFICATION Spec
CONSTANTS Size = 2 Degree = 3 Vals = {0, 1, 3} K = 2
INVARIANTS CoverOK CountOK SameOK
PROPERTY Finishes
CHECK_DEADLOCK FALSE

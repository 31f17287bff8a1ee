SPECIFICATION Spec
CONSTANTS Size = 3 Degree = 5 Vals = {0, 1, 3} K = 2
INVARIANTS CoverOK CountOK SameOK
PROPERTY Finishes
CHECK_DEADLOCK FALSE

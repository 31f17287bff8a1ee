SPECIFICATION Spec
CONSTANTS N = 4 N0 = 2 Vals = {0, 1, 5} InitK = 1 MaxK = 3 Frame = 2 MaxIt = 3 Proba <- Moves
INVARIANTS BoundsOK AccOK Lively CanStep StoreSizes GenOK NoneOK AllOK
PROPERTIES MoveOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxVal = 1 MaxWin = 2 Weights = {1, 3}
INVARIANTS ShrinkOK CellsOK RecurrenceOK PathOK AverageOK
CHECK_DEADLOCK FALSE

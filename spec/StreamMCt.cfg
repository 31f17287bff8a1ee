SPECIFICATION Spec
CONSTANTS N = 5 Vals = {0, 1, 2, 5, 9} Size = 2 Ratio2 = 4 After = 2
INVARIANTS PartitionOK QueueOK CountOK Total AverageOK HullOK MaxOK EarlyOK OutlierOK
PROPERTIES Never ResumeKeeps
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 4 Vals = {0, 1, 3, 7} Size = 2 Ratio2 = 4 After = 2
INVARIANTS PartitionOK QueueOK CountOK Total AverageOK HullOK MaxOK EarlyOK OutlierOK
PROPERTIES Never ResumeKeeps
CHECK_DEADLOCK FALSE

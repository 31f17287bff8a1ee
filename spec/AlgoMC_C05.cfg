SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 3
  Confs <- BudgetConfs
  Ops = {"Play", "Push", "Pause", "Stop"}
  Outcomes = {"ok", "nil"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly NilChangesNothing
CHECK_DEADLOCK FALSE

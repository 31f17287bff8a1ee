SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 4
  MaxIters = 2
  Confs <- DataConfs
  Ops = {"Init", "Play", "Stop", "Push"}
  Outcomes = {"ok"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast EachOnce NoneLost
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly DataStable
CHECK_DEADLOCK FALSE

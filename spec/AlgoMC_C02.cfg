SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 2
  Confs <- MCConfs
  Ops = {"Init", "Play", "Pause", "Stop", "Push", "Wait"}
  Outcomes = {"ok", "err"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly CountedPush
CHECK_DEADLOCK FALSE

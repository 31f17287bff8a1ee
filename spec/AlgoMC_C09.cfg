SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 2
  Confs <- FaultConfs
  Ops = {"Init", "Play", "Pause", "Stop", "Push"}
  Outcomes = {"ok", "err"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly NotifyAppends
CHECK_DEADLOCK FALSE

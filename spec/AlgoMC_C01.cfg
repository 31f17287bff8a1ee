SPECIFICATION MCSpec
CONSTANTS
  Clients = {1}
  MaxCalls = 4
  MaxIters = 2
  Confs <- FaultConfs
  Ops = {"Init", "Play", "Pause", "Stop", "Push", "Wait"}
  Outcomes = {"ok", "err"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly QuietWhenPaused
CHECK_DEADLOCK FALSE

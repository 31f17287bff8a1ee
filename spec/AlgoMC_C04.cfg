SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 4
  MaxIters = 2
  Confs <- FaultConfs
  Ops = {"Play", "Pause", "Stop", "Push"}
  Outcomes = {"ok", "err"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly QuietWhenPaused
CHECK_DEADLOCK FALSE

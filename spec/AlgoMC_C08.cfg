SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 4
  MaxIters = 2
  Confs <- RestartConfs
  Ops = {"Init", "Play", "Pause", "Stop", "Push"}
  Outcomes = {"ok"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly RestartOnlyWhenEnough RestartWhenEnough PushStartsNothingElse
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 2
  Confs <- TimeoutConfs
  Ops = {"Play", "Pause", "Stop", "Wait"}
  Outcomes = {"ok"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly ErrorsKeepModel
CHECK_DEADLOCK FALSE

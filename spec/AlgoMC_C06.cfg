SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 2
  Confs <- FaultConfs
  Ops = {"Init", "Play", "Pause", "Stop", "Push", "Wait", "Status", "Predict"}
  Outcomes = {"ok", "err", "panic", "nil"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly ErrorsKeepModel
CHECK_DEADLOCK FALSE

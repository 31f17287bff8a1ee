SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 1
  Confs <- FaultConfs
  Ops = {"Play", "Stop", "Wait"}
  Outcomes = {"ok"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly WaitEnds
CHECK_DEADLOCK FALSE

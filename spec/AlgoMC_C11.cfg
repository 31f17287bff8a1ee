SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxIters = 2
  Confs <- FaultConfs
  Ops = {"Play", "Push", "Stop", "Centroids", "Figures", "Predict"}
  Outcomes = {"ok", "err", "nil"}
INVARIANTS TypeOK OneLoop ErrorOnlyFinished NotifyLast 
PROPERTIES Edges CompleteOnlyWhenDone NoExtraIteration CountersMove DataAppendOnly PublishedOnly
CHECK_DEADLOCK FALSE

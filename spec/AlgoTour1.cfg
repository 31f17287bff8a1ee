SPECIFICATION TourSpec
CONSTANTS
  Clients = {1, 2}
  MaxWords = 10
  TourConfs <- Confs1
  TourOps = {"Init", "Play", "Pause", "Stop", "Push", "Wait", "Batch"}
  MaxPushed = 2
VIEW View
ACTION_CONSTRAINT Print1
INVARIANTS TypeOK OneLoop ErrorOnlyFinished
CHECK_DEADLOCK FALSE

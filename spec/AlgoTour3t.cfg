SPECIFICATION TourSpec
CONSTANTS
  Clients = {1, 2, 3}
  MaxWords = 10
  TourConfs <- Confs3
  TourOps = {"Play", "Pause", "Stop", "Wait", "Batch"}
  MaxPushed = 2
VIEW View
ACTION_CONSTRAINT Print1
INVARIANTS TypeOK OneLoop ErrorOnlyFinished
CHECK_DEADLOCK FALSE

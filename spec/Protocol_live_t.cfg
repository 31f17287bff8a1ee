CONSTANTS
  Clients = {1,2}
  MaxRuns = 2
  Budgets <- B11
  MaxIter = 1
  Fail = FALSE
  Timeouts = TRUE
  Ops = {"play","pause","stop","push","init"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow Returns Settles
INVARIANTS NoneLeft OneLoop Ordered Quiesced

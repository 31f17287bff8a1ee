CONSTANTS
  Clients = {1,2}
  MaxRuns = 2
  Budgets <- B11
  MaxIter = 1
  Fail = TRUE
  Timeouts = TRUE
  Ops = {"play","pause","stop","push","init","read"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow
INVARIANTS NoneLeft OneLoop Ordered Quiesced

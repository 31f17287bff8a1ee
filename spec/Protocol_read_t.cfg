CONSTANTS
  Clients = {1,2}
  MaxRuns = 2
  Budgets <- B21
  MaxIter = 1
  Fail = FALSE
  Timeouts = FALSE
  Ops = {"play","stop","push","read","init"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow
INVARIANTS NoneLeft OneLoop Ordered Quiesced

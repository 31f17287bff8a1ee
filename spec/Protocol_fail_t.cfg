CONSTANTS
  Clients = {1,2}
  MaxRuns = 2
  Budgets <- B21
  MaxIter = 1
  Fail = TRUE
  Timeouts = TRUE
  Ops = {"play","pause"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow
INVARIANTS NoneLeft OneLoop Ordered Quiesced

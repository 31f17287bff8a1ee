CONSTANTS
  Clients = {1,2}
  MaxRuns = 1
  Budgets <- B11
  MaxIter = 1
  Fail = FALSE
  Timeouts = TRUE
  Ops = {"play","pause","stop","push"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow
INVARIANTS NoneLeft OneLoop Ordered Quiesced

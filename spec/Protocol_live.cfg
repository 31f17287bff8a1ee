CONSTANTS
  Clients = {1,2}
  MaxRuns = 1
  Budgets <- B11
  MaxIter = 1
  Fail = FALSE
  Timeouts = FALSE
  Ops = {"play","pause","stop"}
  defaultInitValue = 0
SPECIFICATION Spec
PROPERTY Workflow Returns Settles
INVARIANTS NoneLeft OneLoop Ordered Quiesced

SPECIFICATION TraceSpec
CONSTANT Clients = {1, 2, 3, 4, 5}
CONSTRAINT Mark
INVARIANT TraceInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

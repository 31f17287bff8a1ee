SPECIFICATION Spec
CONSTANTS N = 4
          MaxW = 3
          Us = {0, 1, 2, 16, 31, 32, 33, 48, 62, 63}
INVARIANTS Accepted
PROPERTIES Ends
CHECK_DEADLOCK FALSE

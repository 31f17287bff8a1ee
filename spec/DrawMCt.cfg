SPECIFICATION Spec
CONSTANTS N = 4
          MaxW = 4
          Us = {0, 1, 2, 3, 5, 8, 13, 16, 21, 24, 31, 32, 33, 40, 43, 48, 55, 61, 62, 63}
INVARIANTS Accepted
PROPERTIES Ends
CHECK_DEADLOCK FALSE

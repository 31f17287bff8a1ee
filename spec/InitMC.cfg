SPECIFICATION Spec
CONSTANTS N = 4
          Vals = {0, 1, 2, 3}
          Classes = 3
          MaxK = 3
INVARIANTS Given Distinct
PROPERTIES Ends
CHECK_DEADLOCK FALSE

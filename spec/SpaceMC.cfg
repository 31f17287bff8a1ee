SPECIFICATION Spec
CONSTANTS Dim = 2
          Coord = {0, 1, 3}
          Ws = {1, 2, 3}
INVARIANTS Metric Averages Near
CHECK_DEADLOCK FALSE

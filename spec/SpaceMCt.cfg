SPECIFICATION Spec
CONSTANTS Dim = 2
          Coord <- Coords
          Ws = {1, 2, 5}
INVARIANTS Metric Averages Near
CHECK_DEADLOCK FALSE

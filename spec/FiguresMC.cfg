SPECIFICATION Spec
CONSTANTS MaxT = 9
          NoData = NoData
INVARIANTS Truthful Bounded
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Depth = 1
          It = 6
          Pu = 4
INVARIANTS Laws
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

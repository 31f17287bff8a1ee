SPECIFICATION Spec
CONSTANTS Depth = 1
          It = 4
          Pu = 2
INVARIANTS Laws
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

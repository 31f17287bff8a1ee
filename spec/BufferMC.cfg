SPECIFICATION Spec
CONSTANTS Frames <- F1
          Base = 2
          MaxPush = 4
          Growth = 1
INVARIANTS Content Stable Apart
CHECK_DEADLOCK FALSE

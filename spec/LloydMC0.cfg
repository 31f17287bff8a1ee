SPECIFICATION Spec
CONSTANTS N = 4 Val = {0, 1, 4, 6} K = 2 Frame = 0
INVARIANTS CountOK DataOK HullOK LossOK FixOK StepOK TiesOK IterBound
PROPERTIES FixReached
CHECK_DEADLOCK FALSE

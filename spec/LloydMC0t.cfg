SPECIFICATION Spec
CONSTANTS N = 5 Val = {0, 1, 2, 5, 7} K = 3 Frame = 0
INVARIANTS CountOK DataOK HullOK LossOK FixOK StepOK TiesOK IterBound
PROPERTIES FixReached
CHECK_DEADLOCK FALSE

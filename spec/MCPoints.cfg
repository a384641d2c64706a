SPECIFICATION Spec
CONSTANTS MaxObj = 2
 MaxLevel = 3
INVARIANT PointsOk
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

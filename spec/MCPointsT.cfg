SPECIFICATION Spec
CONSTANTS MaxObj = 3
 MaxLevel = 4
INVARIANT PointsOk
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

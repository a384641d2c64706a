SPECIFICATION Spec
CONSTANTS Depth = 2
 Full = 1
 MaxObj = 2
 MaxLevel = 3
INVARIANTS SessionOk TablesOk
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

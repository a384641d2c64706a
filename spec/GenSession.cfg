SPECIFICATION Spec
CONSTANTS Depth = 2
 Full = 1
 MaxObj = 3
 Steps = 14
 Count = 60
INVARIANT SessionOk
CHECK_DEADLOCK FALSE

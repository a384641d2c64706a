SPECIFICATION Spec
CONSTANTS Depth = 3
 Full = 1
 MaxObj = 4
 Steps = 24
 Count = 300
INVARIANT SessionOk
CHECK_DEADLOCK FALSE

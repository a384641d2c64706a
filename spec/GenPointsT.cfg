SPECIFICATION Spec
CONSTANTS MaxObj = 7
 Steps = 30
 Count = 600
INVARIANT RowsOk
CHECK_DEADLOCK FALSE

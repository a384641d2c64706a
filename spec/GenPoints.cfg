SPECIFICATION Spec
CONSTANTS MaxObj = 5
 Steps = 16
 Count = 60
INVARIANT RowsOk
CHECK_DEADLOCK FALSE

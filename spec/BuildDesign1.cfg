SPECIFICATION Spec
CONSTANTS Depth = 1
 MaxCells = 8
 MaxBatch = 1
INVARIANTS Pending Refines WellFormed
CHECK_DEADLOCK FALSE

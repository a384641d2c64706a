SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxCells = 3
 MaxBatch = 1
INVARIANTS Pending Refines WellFormed
CHECK_DEADLOCK FALSE

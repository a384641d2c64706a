SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxCells = 2
 MaxBatch = 2
INVARIANTS Pending Refines WellFormed
CHECK_DEADLOCK FALSE

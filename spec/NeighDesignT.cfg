SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  MaxBatch = 2
  MaxSplit = 1
  Big = FALSE
INVARIANTS TableOk Shape Family WellFormed
CHECK_DEADLOCK FALSE

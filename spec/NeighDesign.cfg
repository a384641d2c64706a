SPECIFICATION Spec
CONSTANTS
  MaxDepth = 2
  MaxBatch = 1
  MaxSplit = 1
  Big = FALSE
INVARIANTS TableOk Shape Family WellFormed
CHECK_DEADLOCK FALSE

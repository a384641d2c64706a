SPECIFICATION Spec
CONSTANTS
  Depth = 2
  MaxCells = 1
  MaxBatch = 1
  MaxLen = 5
  Rnd = TRUE
INVARIANTS Conserved ExactOk ShapesOk InverseOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Depth = 1
  MaxCells = 2
  MaxBatch = 1
  MaxLen = 3
  Rnd = FALSE
INVARIANTS Conserved ExactOk ShapesOk InverseOk
CHECK_DEADLOCK FALSE

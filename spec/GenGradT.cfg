SPECIFICATION GSpec
CONSTANTS
  Depth = 2
  MaxCells = 1
  MaxBatch = 2
  MaxLen = 4
  Rnd = FALSE
  Octs = 4
  Skip = 24
INVARIANTS ShapesOk
CHECK_DEADLOCK FALSE

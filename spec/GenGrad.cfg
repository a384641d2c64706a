SPECIFICATION GSpec
CONSTANTS
  Depth = 2
  MaxCells = 1
  MaxBatch = 1
  MaxLen = 3
  Rnd = FALSE
  Octs = 4
  Skip = 7
INVARIANTS ShapesOk
CHECK_DEADLOCK FALSE

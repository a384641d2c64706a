SPECIFICATION Spec
CONSTANTS
  Depth = 1
  MaxCells = 2
  MaxBatch = 2
  Kernels = {"333", "222", "311", "131", "113", "331", "313", "133"}
  Rnd = FALSE
INVARIANTS Whole Adjoint ColLaw PadLaw PoolLaw InterpLaw FamilyLaw
CHECK_DEADLOCK FALSE

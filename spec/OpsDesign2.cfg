SPECIFICATION Spec
CONSTANTS
  Depth = 2
  MaxCells = 1
  MaxBatch = 1
  Kernels = {"333", "222", "313"}
  Rnd = FALSE
INVARIANTS Whole Adjoint ColLaw PadLaw PoolLaw InterpLaw FamilyLaw
CHECK_DEADLOCK FALSE

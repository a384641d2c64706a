SPECIFICATION Spec
CONSTANTS
  Depth = 1
  MaxCells = 2
  MaxBatch = 1
  Kernels = {"333", "222", "131"}
  Rnd = FALSE
INVARIANTS Whole Adjoint ColLaw PadLaw PoolLaw InterpLaw FamilyLaw
CHECK_DEADLOCK FALSE

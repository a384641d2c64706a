SPECIFICATION Spec
CONSTANTS Sizes <- G4
 K = 3
 Epochs = 4
 MaxBatch = 3
 Count = 150
INVARIANT VoteOk
CHECK_DEADLOCK FALSE

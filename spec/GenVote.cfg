SPECIFICATION Spec
CONSTANTS Sizes <- G3
 K = 3
 Epochs = 3
 MaxBatch = 2
 Count = 20
INVARIANT VoteOk
CHECK_DEADLOCK FALSE

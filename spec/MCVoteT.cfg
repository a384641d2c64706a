SPECIFICATION Spec
CONSTANTS Sizes <- S232
 K = 2
 Epochs = 2
 MaxBatch = 2
INVARIANT VoteOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Sizes <- S22
 K = 2
 Epochs = 2
 MaxBatch = 2
INVARIANT VoteOk
CHECK_DEADLOCK FALSE

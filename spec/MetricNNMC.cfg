CONSTANTS Coords = {0, 1}  Factors = {0, 1}  Points <- MPoints  Tensors <- MTensors  MaxQ = 3  MaxC = 2  Memories = {1, 5, 100}  Guarded = TRUE
SPECIFICATION Spec
INVARIANTS ChunkIndependent NonNegative Symmetric EuclidUnderIdentity NeighboursWithin WithinMemory
PROPERTY Finishes
CHECK_DEADLOCK FALSE

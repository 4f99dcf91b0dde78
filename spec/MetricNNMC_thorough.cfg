CONSTANTS Coords = {0, 2}  Factors = {0, 1}  Points <- MPoints  Tensors <- MTensors  MaxQ = 4  MaxC = 3  Memories = {1, 3, 5, 9, 13, 100}  Guarded = TRUE
SPECIFICATION Spec
INVARIANTS ChunkIndependent NonNegative Symmetric EuclidUnderIdentity NeighboursWithin WithinMemory
PROPERTY Finishes
CHECK_DEADLOCK FALSE

CONSTANTS Coords = {0, 1}  Factors = {1}  Points <- MPoints  Tensors <- MTensors  MaxQ = 2  MaxC = 2  Memories = {1, 5, 9, 100}  Guarded = FALSE
SPECIFICATION Spec
PROPERTY Finishes
CHECK_DEADLOCK FALSE

CONSTANTS N = 4  Shares <- SomeShares  MaxK = 3  Folds = {2, 3}  Lenient = TRUE
SPECIFICATION Spec
INVARIANTS Bounded EndMeaning
PROPERTIES Consistent Terminates
CHECK_DEADLOCK FALSE

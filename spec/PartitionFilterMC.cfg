CONSTANTS N = 3  Shares <- SomeShares  MaxK = 2  Folds = {2, 3}  Lenient = TRUE
SPECIFICATION Spec
INVARIANTS Bounded EndMeaning
PROPERTIES Consistent Terminates
CHECK_DEADLOCK FALSE

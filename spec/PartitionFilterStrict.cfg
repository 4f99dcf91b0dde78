CONSTANTS N = 2  Shares <- SomeShares  MaxK = 2  Folds = {2}  Lenient = FALSE
SPECIFICATION Spec
VIEW View
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

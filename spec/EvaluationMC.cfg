CONSTANTS Datasets = {"d1", "d2"}  Folds = {1, 2}  Overs = {"o1", "o2"}  Classifiers = {"c1", "c2"}  Workers = 2  Modes = {"memory", "cached"}
SPECIFICATION Spec
INVARIANTS AtMostOnce CoversAll AtMostWorkers EvaluatedFromStore
PROPERTY Terminates
CHECK_DEADLOCK FALSE

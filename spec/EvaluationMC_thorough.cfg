CONSTANTS Datasets = {"d1"}  Folds = {1, 2, 3}  Overs = {"o1", "o2"}  Classifiers = {"c1", "c2"}  Workers = 3  Modes = {"memory", "cached"}
SPECIFICATION Spec
INVARIANTS AtMostOnce CoversAll AtMostWorkers EvaluatedFromStore
PROPERTY Terminates
CHECK_DEADLOCK FALSE

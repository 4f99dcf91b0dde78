CONSTANTS Overs = {"o1", "o2"}  Classifiers = {"c1", "c2"}  Datasets = {"d1", "d2"}  MaxOps = 6  Rebuild = TRUE
SPECIFICATION Spec
INVARIANTS ConfiguredPipeline ObjectsFollowParameters
CHECK_DEADLOCK FALSE

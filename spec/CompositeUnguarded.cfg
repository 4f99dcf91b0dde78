CONSTANTS Guarded = FALSE  Positions <- SomePositions  Coords = {0, 1, 5}  MaxMin = 3  MaxGen = 4  Levels = {0, 1, 2, 4}  MaxLevels = 4
SPECIFICATION Spec
INVARIANTS NothingInvented NeverEmpty OrderKept ENNKeepsBalance LinksGone
CHECK_DEADLOCK FALSE

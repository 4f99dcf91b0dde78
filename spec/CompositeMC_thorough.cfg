CONSTANTS Guarded = TRUE  Positions <- MorePositions  Coords = {0, 1, 5}  MaxMin = 4  MaxGen = 4  Levels = {0, 1, 2, 4}  MaxLevels = 5
SPECIFICATION Spec
INVARIANTS NothingInvented NeverEmpty OrderKept ENNKeepsBalance LinksGone
CHECK_DEADLOCK FALSE

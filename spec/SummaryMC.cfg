CONSTANTS Labels = {"x", "y"}  FoldIds = {0, 1}  Columns = {"score", "labels"}  MaxRows = 4
SPECIFICATION Spec
INVARIANTS NothingLost ColumnsAligned
CHECK_DEADLOCK FALSE

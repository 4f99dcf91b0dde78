CONSTANTS Labels = {"x", "y"}  FoldIds = {0, 1}  Columns = {"score", "labels"}  MaxRows = 5
SPECIFICATION Spec
INVARIANTS NothingLost ColumnsAligned
CHECK_DEADLOCK FALSE

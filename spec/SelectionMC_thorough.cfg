CONSTANTS Classes = {"p", "q", "r"}  Params = {1, 2}  Means = {0, 1, 2}  MaxRows = 4
SPECIFICATION Spec
INVARIANT Optimal
PROPERTY Returned
CHECK_DEADLOCK FALSE

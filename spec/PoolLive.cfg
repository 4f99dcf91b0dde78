SPECIFICATION Spec
CONSTANTS N = 3
 MaxK = 2
 Rounds = 2
 Kinds = {"ok", "big", "fail", "hang"}
INVARIANTS NeverTooMany Once OwnResults Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
 MaxK = 3
 Rounds = 1
 Kinds = {"ok", "big", "fail", "hang"}
INVARIANT Inv
CHECK_DEADLOCK FALSE

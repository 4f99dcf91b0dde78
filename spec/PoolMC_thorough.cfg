SPECIFICATION Spec
CONSTANTS N = 4
 MaxK = 2
 Rounds = 1
 Kinds = {"ok", "big", "fail", "hang"}
INVARIANT Inv
CHECK_DEADLOCK FALSE

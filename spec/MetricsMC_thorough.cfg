SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Q = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE

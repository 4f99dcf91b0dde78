SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Q = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE

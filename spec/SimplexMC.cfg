SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxLen = 4
  MaxQ = 8
INVARIANT Inv
CHECK_DEADLOCK FALSE

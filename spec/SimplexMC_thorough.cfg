SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxLen = 5
  MaxQ = 13
INVARIANT Inv
CHECK_DEADLOCK FALSE

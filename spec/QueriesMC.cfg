SPECIFICATION Spec
CONSTANTS
  MaxReg = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE

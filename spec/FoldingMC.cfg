SPECIFICATION FSpec
CONSTANTS
  NSplits = 2
  NRepeats = 2
  MaxOps = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE

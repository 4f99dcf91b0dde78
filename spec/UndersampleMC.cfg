SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxDist = 2
INVARIANTS Balanced KeepsMinority Possible
CHECK_DEADLOCK FALSE

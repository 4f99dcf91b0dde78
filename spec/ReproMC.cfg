SPECIFICATION Spec
CONSTANTS
  Objects = {"A", "B"}
  Data = {"d1", "d2"}
  MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE

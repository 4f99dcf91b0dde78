SPECIFICATION Spec
CONSTANTS
  MaxClasses = 4
  MaxSize = 9
  Strategies = {"vs_many", "successive"}
  Least = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE

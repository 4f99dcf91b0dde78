SPECIFICATION Spec
CONSTANTS
  Args = {"a", "b", "c"}
  Values = {0, 1, 2}
  Default = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE

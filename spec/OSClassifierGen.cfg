CONSTANT MaxLen = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

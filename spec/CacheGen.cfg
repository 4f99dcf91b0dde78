CONSTANTS L = 2  Full = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

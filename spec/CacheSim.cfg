CONSTANTS L = 9  Full = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

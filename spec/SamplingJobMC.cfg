SPECIFICATION JSpec
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE

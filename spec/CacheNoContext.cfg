CONSTANTS MContexts = {"a", "b"}  MFolds = {"1"}  MOvers = {"o", "p"}  MClassifiers = {"c"}  MOps = 2  MDamages = 1  KeyOf <- MKeyNoContext
SPECIFICATION Spec
INVARIANTS ServedRight
CHECK_DEADLOCK FALSE

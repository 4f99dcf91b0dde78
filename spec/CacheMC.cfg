CONSTANTS MContexts = {"a", "b"}  MFolds = {"1"}  MOvers = {"o", "p"}  MClassifiers = {"c"}  MOps = 2  MDamages = 1  KeyOf <- MKey
SPECIFICATION Spec
INVARIANTS ServedRight ServedOnce ReusedUnlessReset CompleteOrDetectable NamesDetermineContents
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANTS Generic SubCollection CNNConsistent TomekLaw ENNLaw NCRLaw
CHECK_DEADLOCK FALSE

CONSTANTS
  Rulers = {"clumps"}
  Ks = {1, 2, 3}
  Classes = {"SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "ADASYN", "MSMOTE", "Safe_Level_SMOTE"}
  Careless = TRUE
SPECIFICATION Spec
INVARIANTS Sound
CHECK_DEADLOCK FALSE

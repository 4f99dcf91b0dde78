CONSTANTS
  Rulers = {"clumps"}
  Ks = {1, 2, 3}
  Classes = {"SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "ADASYN", "MSMOTE", "Safe_Level_SMOTE"}
  Careless = FALSE
SPECIFICATION Spec
INVARIANTS Sound Decides Proper Lattice Monotone
CHECK_DEADLOCK FALSE

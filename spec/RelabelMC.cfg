SPECIFICATION Spec
CONSTANTS
  MaxN = 8
  From = {0, 1}
  To <- Targets
INVARIANTS MinorityIsRarer TieIsLarger RolesCommute
CHECK_DEADLOCK FALSE

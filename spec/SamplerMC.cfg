SPECIFICATION Spec
CONSTANTS
    MaxN = 8
    Props <- ModelProps
    Least = 2
INVARIANTS Contract QuotaLaw BalanceAtOne MinorityNeverShrinks
PROPERTY Terminates
CHECK_DEADLOCK FALSE

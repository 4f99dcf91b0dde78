----------------------------- MODULE MulticlassMC -----------------------------
EXTENDS Multiclass, Json
Emit == IF i = 2 /\ strat = "vs_many" THEN PrintT(<<"CASE", ToJson(n)>>) ELSE TRUE
Inv == Equalised /\ ExactVsMany /\ NeverAboveMajority /\ MajorityUntouched /\ Emit
=============================================================================

------------------------------ MODULE FoldingMC ------------------------------
EXTENDS Folding, Json
Emit == IF Len(ops) = MaxOps /\ ops[MaxOps] \in {"files", "memory"} /\ ops[1] = "construct" THEN PrintT(<<"CASE", ToJson(ops)>>) ELSE TRUE
Inv == ListingComplete /\ Emit
=============================================================================

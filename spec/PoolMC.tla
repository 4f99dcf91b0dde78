------------------------------- MODULE PoolMC -------------------------------
EXTENDS Pool, TLC, Json
Emit == IF Finished /\ round = Rounds THEN PrintT(<<"CASE", ToJson([k |-> k, kind |-> kind, order |-> order])>>) ELSE TRUE
Inv == NeverTooMany /\ Once /\ OwnResults /\ Complete /\ Emit
=============================================================================

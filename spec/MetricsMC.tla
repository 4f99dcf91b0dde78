------------------------------ MODULE MetricsMC ------------------------------
(* Exhaustive check of the definitions: every label vector with every vector *)
(* of probabilities of small length; relations between the scores.           *)
EXTENDS Metrics, TLC
CONSTANTS MaxN, Q
VARIABLES y, p
Init == \E n \in 2..MaxN : y \in [1..n -> {0, 1}] /\ p \in [1..n -> 0..Q]
Next == UNCHANGED <<y, p>>
Spec == Init /\ [][Next]_<<y, p>>
q == Predict(p, Q)
a(m) == Atoms(y, q, m)
Both == Labels(y) = {0, 1}
CountsAddUp == \A m \in {0, 1} : a(m).tp + a(m).fn + a(m).tn + a(m).fp = Len(y)
RolesSwap == a(1).tp = a(0).tn /\ a(1).fp = a(0).fn
ThresholdRespected == \A i \in DOMAIN y : (2 * p[i] > Q => q[i] = 1) /\ (2 * p[i] < Q => q[i] = 0)
(* the square of mcc is informedness times markedness *)
MccIdentity == Both => LET c == a(1) IN
    PP(c) > 0 /\ PN(c) > 0 =>
        /\ c.tp * N(c) + c.tn * P(c) - P(c) * N(c) = Num(c)
        /\ c.tp * PN(c) + c.tn * PP(c) - PP(c) * PN(c) = Num(c)
AucRange == Both => AucNum(y, p) >= 0 /\ AucNum(y, p) <= 2 * Count(y, 0) * Count(y, 1)
AucMirror == Both => AucNum(y, p) + AucNum([i \in DOMAIN y |-> 1 - y[i]], p) = 2 * Count(y, 0) * Count(y, 1)
PerfectRanking == Both /\ (\A i, j \in DOMAIN y : y[i] > y[j] => p[i] > p[j]) => AucNum(y, p) = 2 * Count(y, 0) * Count(y, 1)
Inv == CountsAddUp /\ RolesSwap /\ ThresholdRespected /\ MccIdentity /\ AucRange /\ AucMirror /\ PerfectRanking
=============================================================================

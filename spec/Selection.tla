------------------------------ MODULE Selection ------------------------------
(* The selection of the best pair from an aggregated table.  The rows of the *)
(* table (one per parameterisation, in any order) name an oversampler and a  *)
(* classifier class, a parameterisation and the mean of the requested score, *)
(* which can be missing.  The best row is determined for each pair of        *)
(* classes first (any of the equally good ones), then the best of those.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Classes, Params, Means, MaxRows
Missing == -1
VARIABLES table, lower, pending, best, winner
vars == <<table, lower, pending, best, winner>>

Row == [cls : Classes, par : Params, mean : Means \cup {Missing}]
(* a is at least as good as b *)
Better(low, a, b) == IF low THEN a <= b ELSE a >= b
Defined(t, is) == {i \in is : t[i].mean # Missing}
BestOf(t, low, is) == {i \in Defined(t, is) : \A j \in Defined(t, is) : Better(low, t[i].mean, t[j].mean)}
RowsOf(t, c) == {i \in DOMAIN t : t[i].cls = c}
DistinctRows(t) == \A i, j \in DOMAIN t : i # j => <<t[i].cls, t[i].par>> # <<t[j].cls, t[j].par>>

Init ==
    /\ table \in {t \in UNION {[1..n -> Row] : n \in 1..MaxRows} : DistinctRows(t)}
    /\ lower \in BOOLEAN
    /\ pending = {table[i].cls : i \in DOMAIN table}
    /\ best = {} /\ winner = 0
Pivot(c) ==
    /\ c \in pending /\ pending' = pending \ {c}
    /\ LET b == BestOf(table, lower, RowsOf(table, c)) IN
       IF b = {} THEN best' = best ELSE \E i \in b : best' = best \cup {i}
    /\ UNCHANGED <<table, lower, winner>>
Choose ==
    /\ pending = {} /\ winner = 0 /\ best # {}
    /\ winner' \in BestOf(table, lower, best)
    /\ UNCHANGED <<table, lower, pending, best>>
Next == (\E c \in pending : Pivot(c)) \/ Choose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Optimal == winner # 0 => winner \in BestOf(table, lower, DOMAIN table)
(* a pair is returned whenever any of the means is defined *)
Returned == <>(winner # 0 \/ Defined(table, DOMAIN table) = {})
(* any of the best ones can be returned: nothing is promised about ties *)
=============================================================================

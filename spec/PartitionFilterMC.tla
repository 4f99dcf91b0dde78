------------------------- MODULE PartitionFilterMC -------------------------
(* All runs of the filter on a few rows under arbitrary votes.               *)
EXTENDS PartitionFilter
CONSTANTS N, Shares, MaxK, Folds, Lenient
SomeShares == {<<0, 1>>, <<1, 4>>, <<1, 1>>}
VARIABLES rows, run, K, F, p, voting, finished, quiets
vars == <<rows, run, K, F, p, voting, finished, quiets>>
Init == /\ rows = 1..N /\ run = 0 /\ finished = FALSE /\ quiets = <<>>
        /\ K \in 1..MaxK /\ F \in Folds /\ p \in Shares /\ voting \in {"majority", "consensus"}
Round == /\ ~finished
         /\ \E wrong \in [rows -> 0..F] :
               LET gone == Condemned(voting, wrong, F)
                   few == IF Lenient THEN Few(Cardinality(gone), Cardinality(rows \ gone), p) ELSE StrictlyFew(Cardinality(gone), Cardinality(rows \ gone), p)
               IN  /\ rows' = rows \ gone
                   /\ run' = IF few THEN run + 1 ELSE 0
                   /\ quiets' = Append(quiets, few)
                   /\ finished' = (run' = K)
         /\ UNCHANGED <<K, F, p, voting>>
Next == Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the record of quiet rounds may grow without bound in the defective variant only *)
Bounded == Len(quiets) <= (N + 1) * (MaxK + 1)
Constr == Len(quiets) <= 3
View == <<rows, run, K, F, p, voting, finished>>
EndMeaning == finished <=> EndsWith(quiets, K)
Consistent == [][rows' \subseteq rows]_vars
Finishes == finished
Terminates == <>Finishes
(* a consensus is also a majority *)
ASSUME \A w \in [1..3 -> 0..3] : \A f \in {3} : Condemned("consensus", w, f) \subseteq Condemned("majority", w, f)
=============================================================================

-------------------------- MODULE PartitionFilter --------------------------
(* The iterative partitioning filter: in every round each of F classifiers   *)
(* votes on all rows, the rows condemned by the voting scheme are removed,   *)
(* and the filter ends after K consecutive rounds with few removals.         *)
EXTENDS SVBase
(* wrong: number of classifiers of F erring on each row *)
Condemned(voting, wrong, F) == {i \in DOMAIN wrong : IF voting = "majority" THEN 2 * wrong[i] > F ELSE wrong[i] = F}
(* few: none, or less than the share p = p[1]/p[2] of the rows left *)
Few(removed, left, p) == removed = 0 \/ removed * p[2] < left * p[1]
StrictlyFew(removed, left, p) == removed * p[2] < left * p[1]
(* the rounds after which the filter ends: the last K were quiet, no earlier K in a row *)
EndsAt(quiet, K, r) == r >= K /\ \A i \in (r - K + 1)..r : quiet[i]
EndsWith(quiet, K) == EndsAt(quiet, K, Len(quiet)) /\ \A r \in 1..(Len(quiet) - 1) : ~EndsAt(quiet, K, r)
=============================================================================

------------------------------ MODULE MetricNNGen ------------------------------
(* the kinds of queries and configurations replayed on the real code         *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE cfg
Init == cfg \in [op : {"knn function", "knn object", "radius object", "pairwise", "paired"}, tensor : {"none", "identity", "near", "diagonal", "full", "singular"},
                 memory : {1, 7, 30, 200, 50000000}, jobs : {1, 2}, queries : {"same", "other", "one"}, dist : BOOLEAN, argument : {"call", "object"}, sort : BOOLEAN]
Next == PrintT(<<"CASE", ToJson(cfg)>>) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_cfg
=============================================================================

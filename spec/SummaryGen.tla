------------------------------ MODULE SummaryGen ------------------------------
(* the sets of results to summarise: number of folds of each                 *)
(* parameterisation, which parameterisations (numbers in a table of those    *)
(* differing in one respect each) and whether the folds belong to repeats    *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE cfg
Init == \E g \in UNION {[1..n -> {1, 2, 5}] : n \in 1..4}, first \in {0, 7, 14, 22}, stride \in {1, 5, 7, 15}, r \in BOOLEAN :
            cfg = [groups |-> g, shape |-> [i \in DOMAIN g |-> (first + (i - 1) * stride) % 30], repeats |-> r]
Next == PrintT(<<"CASE", ToJson(cfg)>>) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_cfg
=============================================================================

----------------------------- MODULE EvaluationGen -----------------------------
(* the ways an evaluation can be executed, replayed on the real code         *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE cfg
Init == cfg \in [jobs : {1, 2, 3}, store : {"memory", "cold", "warm part", "warm jobs", "warm full", "warm clean"}, ser : {"json", "pickle"}, clean : {"none", "oversamplings", "all"},
                 timeout : {"default", "none", "long"}, datasets : {1, 2}, gc : BOOLEAN]
Next == PrintT(<<"CASE", ToJson(cfg)>>) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_cfg
=============================================================================

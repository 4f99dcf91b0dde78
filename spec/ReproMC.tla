------------------------------- MODULE ReproMC -------------------------------
(* Model check of Repro and generator of the scenarios replayed on every     *)
(* sampler: all action sequences in which some history recurs after a        *)
(* disturbance.                                                              *)
EXTENDS Repro
RECURSIVE HistAt(_, _, _)
(* history of object o after the first k actions *)
HistAt(s, o, k) ==
    IF k = 0 THEN <<>>
    ELSE LET h == HistAt(s, o, k - 1) IN
         IF s[k][1] = "sample" /\ s[k][2] = o THEN Append(h, s[k][3])
         ELSE IF s[k][1] = "rewind" /\ s[k][2] = o THEN <<>> ELSE h
CallHist(s, k) == HistAt(s, s[k][2], k)
Calls(s) == {k \in 1..Len(s) : s[k][1] = "sample"}
(* the last call repeats an earlier history *)
Useful(s) == /\ Len(s) >= 2 /\ Len(s) \in Calls(s)
             /\ \E k \in Calls(s) : k < Len(s) /\ CallHist(s, k) = CallHist(s, Len(s))
             /\ s[1][1] = "sample" /\ s[1][2] = "A"
             /\ \A k \in 1..Len(s)-1 : ~(s[k][1] = "perturb" /\ s[k+1][1] = "perturb")
Scenario == IF Len(log) >= 3 /\ Useful(log) THEN PrintT(<<"CASE", ToJson(log)>>) ELSE TRUE
Inv == Reproducible /\ Scenario
=============================================================================

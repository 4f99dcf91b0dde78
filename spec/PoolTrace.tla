------------------------------ MODULE PoolTrace ------------------------------
(* Validates recorded executions of the real pool.  An event holds the kinds *)
(* of the jobs, the classified results and the log of starts (S), ends (E)   *)
(* and timeout fallbacks (T) in the order they happened.                     *)
EXTENDS TraceBase
VARIABLE l
P == INSTANCE Pool WITH N <- 1, MaxK <- 1, Rounds <- 1, Kinds <- {}, k <- 1, kind <- <<>>, round <- 1, idx <- 1, cur <- <<>>, proc <- <<>>, pipe <- <<>>,
                        res <- <<>>, starts <- <<>>, order <- <<>>
Count(log, op, j) == Cardinality({i \in DOMAIN log : log[i][1] = op /\ log[i][2] = j})
First(log, op, j) == CHOOSE i \in DOMAIN log : log[i][1] = op /\ log[i][2] = j /\ \A h \in 1..(i - 1) : ~(log[h][1] = op /\ log[h][2] = j)
EndOp(kd) == IF kd = "hang" THEN "T" ELSE "E"
(* number of jobs alive after the first i entries *)
Running(e, i) == Cardinality({j \in DOMAIN e.kind : \E h \in 1..i : e.log[h][1] = "S" /\ e.log[h][2] = j /\ ~\E g \in 1..i : e.log[g][1] = EndOp(e.kind[j]) /\ e.log[g][2] = j})
Verdict(e) ==
    IF e.err # "" THEN {"the pool terminates without an error"}
    ELSE Broken("one result per job", Len(e.res) = Len(e.kind))
         \cup (IF Len(e.res) # Len(e.kind) THEN {} ELSE
               Broken("own result at the position of the job", \A j \in DOMAIN e.kind : P!Expected(e.kind[j]) = "own" => e.res[j] = "own")
               \cup Broken("fallback of the job at its position", \A j \in DOMAIN e.kind : P!Expected(e.kind[j]) = "fallback" => e.res[j] = "fallback"))
         \cup Broken("every job executed once", \A j \in DOMAIN e.kind : Count(e.log, "S", j) = 1)
         \cup Broken("fallback only for failed jobs", \A j \in DOMAIN e.kind : Count(e.log, "T", j) = (IF P!Expected(e.kind[j]) = "own" THEN 0 ELSE 1))
         \cup Broken("own process per job", e.pids_ok)
         \cup Broken("at most n_jobs at a time", \A i \in DOMAIN e.log : Running(e, i) <= e.k)
         \cup Broken("no process left behind", e.left = 0)
         \cup Broken("earlier results untouched", e.kept)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

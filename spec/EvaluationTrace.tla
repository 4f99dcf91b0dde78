---------------------------- MODULE EvaluationTrace ----------------------------
(* Validates evaluations recorded from the real code: results as combos      *)
(* <<dataset, fold, oversampler, classifier>>, tables as rows.               *)
EXTENDS TraceBase
VARIABLE l
E == INSTANCE Evaluation WITH Datasets <- {}, Folds <- {}, Overs <- {}, Classifiers <- {}, Workers <- 1, Modes <- {},
                              mode <- "", store <- {}, data <- {}, cur <- "", jobs <- {}, active <- {}, stage <- "", results <- <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Rows(e, k) == {i \in DOMAIN e.rows : e.rows[i].key = k}
Row(e, k) == e.rows[CHOOSE i \in DOMAIN e.rows : e.rows[i].key = k]
Judged(e) == {i \in DOMAIN e.groups : Cardinality(Rows(e, e.groups[i].key)) = 1}
Verdict(e) ==
    IF e.err # "" THEN {"the evaluation does not fail"}
    ELSE CASE e.op = "results" ->
                 Broken("one result per combination", \A k \in Range(e.want) : Count(e.served, k) = 1)
            \cup Broken("no other results", Range(e.served) \subseteq Range(e.want))
            \cup Broken("each result is that of its combination", e.wrong = <<>>)
           [] e.op = "table" ->
                 Broken("one row per parameterisation", \A i \in DOMAIN e.groups : Cardinality(Rows(e, e.groups[i].key)) = 1)
            \cup Broken("no other rows", \A i \in DOMAIN e.rows : \E j \in DOMAIN e.groups : e.groups[j].key = e.rows[i].key)
            \cup Broken("means over exactly the folds", \A i \in Judged(e) : \A s \in DOMAIN e.groups[i].scores :
                            E!MeanRight(e.groups[i].scores[s], Row(e, e.groups[i].key).mean[s]))
            \cup Broken("standard deviations over exactly the folds", \A i \in Judged(e) : \A s \in DOMAIN e.groups[i].scores :
                            E!StdRight(e.groups[i].scores[s], Row(e, e.groups[i].key).mean[s], Row(e, e.groups[i].key).std[s]))
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

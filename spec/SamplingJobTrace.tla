--------------------------- MODULE SamplingJobTrace ---------------------------
(* Validates recorded sampling + evaluation jobs of the real code: the       *)
(* recorded result has to be the terminal state of the specification.        *)
EXTENDS TraceBase
VARIABLE l
J == INSTANCE SamplingJob WITH job <- <<>>

Has(kinds, k) == \E i \in DOMAIN kinds : kinds[i] = k
(* e.xtrain, e.xtest: the reference forms the recorded data is equal to *)
Verdict(e) ==
    LET x == J!Expected(e.cfg) IN
    IF e.err # "" THEN {"raises"}
    ELSE    Broken("training data", Has(e.xtrain, x.xtrain) /\ e.ytrain_ok[IF x.xtrain = "sampled" THEN "sampled" ELSE "raw"])
       \cup Broken("test data", Has(e.xtest, x.xtest))
       \cup Broken("test labels unchanged", e.ytest_ok)
       \cup Broken("error reported", e.error = x.error)
       \cup Broken("time of a timed out job", x.runtime = "minus one" => e.runtime_neg)
       \cup Broken("time of a finished job", x.runtime = "measured" => ~e.runtime_neg)
       \cup Broken("fold descriptor carried", e.desc_ok)
       \cup Broken("oversampler identified", e.os_ok)
       \cup Broken("fold left unchanged", e.fold_ok)
       \cup Broken("training data independent of the test fold", e.leak_free)
       \cup Broken("one evaluation per classifier", e.n_eval = e.n_cl)
       \cup Broken("predictions of the classifier fitted on the training data, in the order of the test rows",
                   \A i \in DOMAIN e.evals : e.evals[i].pred = (IF e.evals[i].cl = "ok" THEN "predicted" ELSE "zeros"))
       \cup Broken("classifier error reported", \A i \in DOMAIN e.evals : e.evals[i].error = (e.evals[i].cl # "ok"))
       \cup Broken("evaluation labels are the test labels", \A i \in DOMAIN e.evals : e.evals[i].ytest_ok)
       \cup Broken("evaluation identifies its combination", \A i \in DOMAIN e.evals : e.evals[i].ident)
       \cup Broken("scores of these predictions", \A i \in DOMAIN e.evals : e.evals[i].scores_ok)
       \cup Broken("oversampling error carried", \A i \in DOMAIN e.evals : e.evals[i].os_error = x.error)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, IF Trace[l].op = "job" THEN Verdict(Trace[l]) ELSE {"unknown event"}) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

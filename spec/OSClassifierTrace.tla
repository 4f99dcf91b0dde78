--------------------------- MODULE OSClassifierTrace ---------------------------
(* Validates recorded life cycles: after each operation the predictions of   *)
(* the wrapper were compared with those of every explicit pipeline (fresh    *)
(* objects) and of the explicit pipeline executing the same operations; the  *)
(* names of the equal ones were recorded.                                    *)
EXTENDS TraceBase
VARIABLE l
C == INSTANCE OSClassifier WITH Overs <- {}, Classifiers <- {}, Datasets <- {}, MaxOps <- 0, Rebuild <- TRUE,
                                over <- "", cls <- "", overObj <- "", clsObj <- "", model <- <<>>, last <- "", ops <- 0
Range(s) == {s[i] : i \in DOMAIN s}
State(e, n) == C!After([o |-> "o1", c |-> "c1", model |-> C!Unfitted], e.acts, n)
Verdict(e) ==
    IF e.err # "" THEN {"no operation fails"}
    ELSE CASE e.op = "life cycle" ->
              UNION {LET s == State(e, n)
                         r == e.after[n]
                     IN   Broken("parameters are those set", r.o = s.o /\ r.c = s.c)
                     \cup Broken("predictions of the fitted pipeline", s.model = C!Unfitted \/ s.model \in Range(r.predicts) \/ r.same_history)
                     \cup Broken("probabilities of the fitted pipeline", s.model = C!Unfitted \/ s.model \in Range(r.probabilities) \/ r.same_history_proba)
                     \cup Broken("classes of the data", s.model = C!Unfitted \/ r.classes)
                     \cup Broken("predicting changes nothing", s.model = C!Unfitted \/ r.repeatable)
                     : n \in DOMAIN e.acts}
           [] e.op = "tool" -> Broken(e.clause, e.holds)
           [] e.op = "mlp" ->
                 Broken("predicts as the configured network", C!Hidden(e.dim, e.frac) \in Range(e.predict))
            \cup Broken("probabilities of the configured network", C!Hidden(e.dim, e.frac) \in Range(e.proba))
            \cup Broken("a copy has the same configuration", e.copied)
            \cup Broken("a copy is independent", e.independent)
            \cup Broken("the parameters are those given", e.params)
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

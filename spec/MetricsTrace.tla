----------------------------- MODULE MetricsTrace -----------------------------
(* Validates recorded scores of the real code against the definitions.       *)
EXTENDS TraceBase
VARIABLE l
D == INSTANCE Metrics
Names(r) == {k \in DOMAIN r : ~r[k]}
Rates == {"acc", "sens", "spec", "ppv", "npv", "fpr", "fnr", "fdr", "bacc", "gacc", "f1", "informedness", "markedness", "mcc"}
AtomsOK(a, s) == a.tp = s.tp /\ a.fn = s.fn /\ a.tn = s.tn /\ a.fp = s.fp
Verdict(e) ==
    IF e.err # "" THEN {"raises"}
    ELSE CASE e.op = "predict" -> Broken("labels from probabilities", e.pred = D!Predict(e.p, e.q))
           [] e.op = "atoms" -> Broken("confusion counts", AtomsOK(D!Atoms(e.y, e.pred, e.m), e.atoms))
           [] e.op = "labels" -> Names(D!ScoreOK(e.a, e.s)) \cup Broken("counts kept", AtomsOK(e.a, e.atoms) /\ e.atoms.p = D!P(e.a) /\ e.atoms.n = D!N(e.a))
           \* the rates do not depend on the scale of the counts
           [] e.op = "scaled" -> Names([k \in Rates |-> D!ScoreOK(e.a, e.s)[k]])
           [] e.op = "prob" -> Names(D!ProbOK(e.y, e.p, e.q, e.s))
           [] e.op = "all" -> Names(D!ScoreOK(D!Atoms(e.y, D!Predict(e.p, e.q), e.m), e.s)) \cup Names(D!ProbOK(e.y, e.p, e.q, e.s))
                              \cup Broken("confusion counts", AtomsOK(D!Atoms(e.y, D!Predict(e.p, e.q), e.m), e.atoms))
                              \cup Broken("all scores reported", e.complete)
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

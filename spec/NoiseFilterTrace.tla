--------------------------- MODULE NoiseFilterTrace ---------------------------
(* Validates recorded remove_noise() calls: event [op, name, opt, metric, X, *)
(* y, keep (input row of each output row, 0 if none), yout, err].            *)
EXTENDS NoiseFilter, TraceBase
VARIABLE l
Judge(e) ==
    LET D == DistMatrix(e.metric, e.X)
    IN  IF ~GenericPosition(D, DOMAIN e.X) \/ ~Defined(e.name, D, e.y) THEN {"harness: input outside the scope"}
        ELSE IF e.err # "" THEN {"raises"}
        ELSE    Broken("rows of the input", \A i \in DOMAIN e.keep : e.keep[i] # 0)
           \cup Broken("each row at most once", Cardinality(Range(e.keep)) = Len(e.keep))
           \cup Broken("rows and labels stay paired",
                       Len(e.yout) = Len(e.keep) /\ \A i \in DOMAIN e.keep : e.keep[i] # 0 => e.yout[i] = e.y[e.keep[i]])
           \cup Broken("input untouched", e.same)
           \cup Broken("exactly the rows named by the rule", Range(e.keep) = Range(FilterOf(e.name, e.opt, D, e.y)))
           \cup Broken("original order",
                       e.name \in {"TomekLinkRemoval", "EditedNearestNeighbors", "NeighborhoodCleaningRule"} =>
                           \A i \in 1..(Len(e.keep) - 1) : e.keep[i] < e.keep[i + 1])
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

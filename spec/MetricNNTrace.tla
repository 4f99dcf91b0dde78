---------------------------- MODULE MetricNNTrace ----------------------------
(* Validates recorded queries.  Points and tensors are integers (the code    *)
(* gets them scaled and shifted); distances are recorded squared, scaled     *)
(* back and multiplied by 1000, -1000000 standing for undefined ones.        *)
EXTENDS TraceBase
VARIABLE l
N == INSTANCE MetricNN WITH Points <- {}, Tensors <- {}, MaxQ <- 0, MaxC <- 0, Memories <- {}, Guarded <- TRUE,
                            base <- <<>>, cand <- <<>>, tensor <- <<>>, mem <- 0, work <- <<>>, matrix <- <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Near(a, d) == a - 1000 * d \in -1..1
RightDists(row, ids, ds) == Len(ids) = Len(ds) /\ \A a \in DOMAIN ids : ids[a] \in DOMAIN row => Near(ds[a], row[ids[a]])
Verdict(e) ==
    IF e.err # "" THEN {"the query does not fail"}
    ELSE CASE e.op = "knn" ->
                 LET D == N!Matrix(e.tensor, e.base, e.cand) IN
                 Broken("one answer per query", Len(e.ids) = Len(e.base))
            \cup Broken("the k nearest in order", \A i \in DOMAIN e.ids \cap DOMAIN D : N!Nearest(D[i], e.k, e.ids[i]))
            \cup Broken("the distances are those of the neighbours", ~e.with_dist \/ \A i \in DOMAIN e.ids \cap DOMAIN D : RightDists(D[i], e.ids[i], e.dist[i]))
           [] e.op = "radius" ->
                 LET D == N!Matrix(e.tensor, e.base, e.cand) IN
                 Broken("one answer per query", Len(e.ids) = Len(e.base))
            \cup Broken("exactly those within the radius", \A i \in DOMAIN e.ids \cap DOMAIN D :
                            Range(e.ids[i]) = N!Within(D[i], e.r2) /\ Len(e.ids[i]) = Cardinality(Range(e.ids[i])))
            \cup Broken("the distances are those of the neighbours", ~e.with_dist \/ \A i \in DOMAIN e.ids \cap DOMAIN D : RightDists(D[i], e.ids[i], e.dist[i]))
            \cup Broken("in order on request", ~e.sorted \/ \A i \in DOMAIN e.ids \cap DOMAIN D : \A a, b \in DOMAIN e.ids[i] :
                            (a < b /\ {e.ids[i][a], e.ids[i][b]} \subseteq DOMAIN D[i]) => D[i][e.ids[i][a]] <= D[i][e.ids[i][b]])
            \cup Broken("the answers can be used as indices", e.indexable)
           [] e.op = "pairwise" ->
                 LET D == N!Matrix(e.tensor, e.base, e.cand) IN
                 Broken("distances by the definition", Len(e.dist) = Len(D) /\ \A i \in DOMAIN D : Len(e.dist[i]) = Len(D[i]) /\ \A j \in DOMAIN D[i] : Near(e.dist[i][j], D[i][j]))
           [] e.op = "paired" ->
                 Broken("distances by the definition", Len(e.dist) = Len(e.base) /\ \A i \in DOMAIN e.base : Near(e.dist[i], N!Dist(e.tensor, e.base[i], e.cand[i])))
           [] e.op = "tensor" ->
                 Broken("the given tensor is used", e.kind # "given" \/ e.equal)
            \cup Broken("the tensor of the named method", e.kind \notin {"id", "cov", "cov_min"} \/ e.equal)
            \cup Broken("no tensor without request", e.kind # "none" \/ e.equal)
            \cup Broken("learned tensors are symmetric and positive semidefinite", e.psd)
           [] e.op = "sampler" -> Broken(e.clause, e.equal)
           [] e.op = "config" -> Broken("the configured chunk is in effect", e.got = e.want)
           [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

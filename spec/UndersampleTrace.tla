--------------------------- MODULE UndersampleTrace ---------------------------
EXTENDS TraceBase
VARIABLE l
U == INSTANCE Undersample WITH MaxN <- 0, MaxDist <- 0, yin <- <<>>, dist <- <<>>, mode <- "", kept <- {}
Tol == 2
Src(e) == U!Range(e.src)
KeptMaj(e) == Src(e) \cap U!Majority(e.yin)
Verdict(e) ==
    IF e.op # "us" THEN {"unknown event"}
    ELSE IF e.err # "" THEN {"raises"}
    ELSE    Broken("input untouched", e.pure)
       \cup Broken("rows and labels paired", Len(e.yout) = Len(e.src) /\ e.shape)
       \cup Broken("only original rows", \A k \in DOMAIN e.src : e.src[k] > 0)
       \cup Broken("labels as in the input",
                   \A k \in DOMAIN e.src : e.src[k] > 0 => (k \in DOMAIN e.yout /\ e.yout[k] = e.yin[e.src[k]]))
       \cup Broken("rows distinct", Cardinality(Src(e)) = Len(e.src))
       \cup Broken("whole minority kept", U!Minority(e.yin) \subseteq Src(e))
       \cup Broken("equally many majority rows", Cardinality(KeptMaj(e)) = U!NMin(e.yin))
       \cup Broken("reproducible", e.dig = e.dig2)
       \cup Broken("no memory shared", ~e.alias)
       \cup Broken("nearest to the synthetic samples kept",
                   e.mode = "farthest" =>
                      \A a \in KeptMaj(e), b \in U!Majority(e.yin) \ KeptMaj(e) : e.dist[a] <= e.dist[b] + Tol)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

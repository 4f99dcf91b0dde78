--------------------------- MODULE ParamDomainsTrace ---------------------------
EXTENDS TraceBase, ParamDomains
VARIABLE l
Judge(e, inside) ==
    IF inside THEN Broken("value inside the domain is accepted", e.out = "accepted")
    ELSE Broken("value outside the domain is rejected with ValueError", e.out = "ValueError")
Verdict(e) ==
    CASE e.op = "num" -> Judge(e, InDomain(e.p, e.v))
      [] e.op = "none" -> Judge(e, FALSE)
      [] e.op = "opt" -> Judge(e, e.v \in Options(e.p))
      [] e.op = "range" -> Judge(e, e.lo >= 1 /\ e.hi >= 1)
      [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

----------------------------- MODULE QueriesTrace -----------------------------
(* The first event of a trace records the attributes of the registered       *)
(* classes; every further event is a query with its answer.                  *)
EXTENDS TraceBase
VARIABLES l, reg
Q == INSTANCE Queries
Verdict(e) ==
    IF e.err # "" THEN {"raises"}
    ELSE CASE e.op = "registry" -> Broken("the registered samplers in registry order", Q!NamesOf(e.reg) = Q!Registry)
           [] e.op = "query" -> Broken("exactly the classes satisfying the criterion, in order", e.got = Q!NamesOf(Q!Answer(reg, e.q)))
                                \cup Broken("the same answer again", e.got = e.again)
           [] e.op = "filters" -> Broken("all noise filters", Q!Range(e.got) = Q!NoiseFilters /\ Len(e.got) = Cardinality(Q!NoiseFilters))
           [] e.op = "combinations" -> Broken("min(n_max, available) distinct valid combinations", Q!CombinationsOK(e.got, e.avail, e.nmax))
                                       \cup Broken("combinations under their class, in class order", e.order)
                                       \cup Broken("reproducible by seed", e.repro)
                                       \cup Broken("output format", e.format)
           [] OTHER -> {"unknown event"}
Init == l = 1 /\ reg = <<>>
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1 /\ reg' = (IF Trace[l].op = "registry" THEN Trace[l].reg ELSE reg)
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================

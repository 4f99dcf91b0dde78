------------------------------- MODULE CacheTrace -------------------------------
(* Validates histories recorded from the real cache.  The trace state holds  *)
(* the results known to be stored undamaged (good) and those which may be    *)
(* (maybe: a crash happened while they were being computed).  A result is a  *)
(* tuple <<kind, dataset, context, fold, oversampler, classifier>>.          *)
EXTENDS TraceBase
VARIABLES l, good, maybe
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
SampOf(k) == [k EXCEPT ![1] = "s", ![6] = "none"]
Wanted(e) == Range(e.want)
Reset(e, k) == k[1] \in Range(e.reset)
(* a sampling which is only needed for evaluations stored already may be left out *)
Needed(e, k) == k[1] = "e" \/ e.op = "job" \/ \E q \in Wanted(e) : q[1] = "e" /\ SampOf(q) = k /\ (q \notin good \cup maybe \/ Reset(e, q))
Work(e) ==
       Broken("undamaged results are reused", \A k \in Wanted(e) : k \in good /\ ~Reset(e, k) => Count(e.made, k) = 0)
  \cup Broken("nothing is computed twice", \A k \in Wanted(e) : Count(e.made, k) <= 1)
  \cup Broken("only the requested is computed, from the requested data", Range(e.made) \subseteq Wanted(e))
  \cup (IF e.out # "done" THEN {} ELSE
          Broken("what is missing or damaged is recomputed", \A k \in Wanted(e) : k \notin good \cup maybe /\ Needed(e, k) => Count(e.made, k) >= 1)
     \cup Broken("a reset recomputes", \A k \in Wanted(e) : Reset(e, k) => Count(e.made, k) >= 1)
     \cup Broken("every requested result served once", \A k \in {q \in Wanted(e) : q[1] = "e" \/ e.op = "job"} : Count(e.served, k) = 1)
     \cup Broken("only requested results served", Range(e.served) \subseteq Wanted(e))
     \cup Broken("results served are complete and those of the request", e.right))
  \cup Broken("no operation fails", e.out # "raised")
Verdict(e) == (IF e.op = "init" THEN {} ELSE Broken("files under their final names are complete", e.torn = 0)) \cup
    CASE e.op \in {"run", "job"} -> Work(e)
      [] e.op = "folds" -> Broken("every fold served once", e.out = "done" /\ Len(e.served) = Len(e.want) /\ Range(e.served) = Range(e.want))
                           \cup Broken("folds served are complete and those of the request", e.right)
      [] e.op = "clean" -> Broken("clean-up removes what it has to", e.left = 0) \cup Broken("clean-up does not fail", e.out # "raised")
      [] e.op = "wipe" -> Broken("reset folding does not fail", e.out # "raised")
      [] e.op \in {"init", "damage"} -> {}
      [] OTHER -> {"unknown event"}
OfData(e, S) == {k \in S : k[2] = e.d}
OfSamp(e, S) == {k \in OfData(e, S) : k[1] = "s"}
Cleaned(e) == e.clean \in {"oversamplings", "all"}
After(e) ==
    CASE e.op = "init" -> [g |-> {}, m |-> {}]
      [] e.op = "damage" -> [g |-> good \ {e.key}, m |-> maybe \ {e.key}]
      [] e.op \in {"run", "job"} /\ e.out = "done" ->
            LET w == {k \in Wanted(e) : Needed(e, k)}
                o == Wanted(e) \ w   \* samplings left out possibly
            IN IF Cleaned(e) THEN [g |-> (good \cup w) \ OfSamp(e, good \cup w), m |-> (maybe \ w) \ OfSamp(e, maybe)]
               ELSE [g |-> good \cup w, m |-> (maybe \cup (o \ good)) \ w]
      [] e.op \in {"run", "job"} ->
            LET lost == IF Cleaned(e) THEN OfSamp(e, good) ELSE {}
                redone == {k \in Wanted(e) : k \notin good \/ Reset(e, k)}
            IN [g |-> good \ (lost \cup redone), m |-> maybe \cup lost \cup redone]
      [] e.op = "clean" -> IF Cleaned(e) THEN [g |-> good \ OfSamp(e, good), m |-> maybe \ OfSamp(e, maybe)] ELSE [g |-> good, m |-> maybe]
      [] e.op = "wipe" -> [g |-> good \ OfData(e, good), m |-> maybe \ OfData(e, maybe)]
      [] OTHER -> [g |-> good, m |-> maybe]
Init == l = 1 /\ good = {} /\ maybe = {}
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ LET a == After(Trace[l]) IN good' = a.g /\ maybe' = a.m
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, good, maybe>>
=============================================================================

--------------------------- MODULE PlacementTrace ---------------------------
(* Validation of recorded calls of the rule based oversamplers.              *)
EXTENDS Placement, TraceBase

VARIABLE l

Placed(e) == LET F == Facts(e) IN
    Broken("a synthetic sample lies where the rule of the sampler allows none",
           \A p \in DOMAIN e.pts : \E x \in DOMAIN e.pts[p] : Allowed(e, F, e.pts[p][x]))
    \cup Broken("the sampler declines although its rule has samples to place", e.quota = 0 \/ e.pts # <<>> \/ e.err # "" \/ ~Places(e))
    \cup (IF ~e.full \/ e.pts = <<>> THEN {} ELSE
          Broken("a row the rule admits as base is never used", MustBases(e, F) \subseteq UsedBases(e, F))
          \cup Broken("a neighbour the rule admits is never used", MustPairs(e, F) \subseteq UsedPairs(e, F)))
    \cup (IF e.cls # "ISMOTE" THEN {} ELSE
          Broken("other majority rows are removed than the farthest ones", {i \in Rows(e) : ~e.kept[i]} = IsmoteRemoved(e)))
    \cup (IF e.cls # "A_SUWO" THEN {} ELSE
          Broken("other rows are removed than those without a neighbour of their class", {i \in Rows(e) : ~e.kept[i]} = SuwoNoise(e) \/ e.untouched))
    \cup (IF e.cls # "VIS_RST" THEN {} ELSE
          Broken("other rows are relabelled than the boundary",
                 {i \in Rows(e) : e.relabelled[i]} = (IF VisAborted(e) THEN Min(e) ELSE Min(e) \cup VisRelabelled(e))))

Stef(e) ==
    Broken("wrong number of copies", e.untouched \/ \A i \in Rows(e) : e.copied[i] = StefCopies(e)[i])
    \cup Broken("wrong rows removed", e.untouched \/ {i \in Rows(e) : ~e.kept[i]} = StefRemoved(e))
    \cup Broken("wrong rows relabelled", e.untouched \/ {i \in Maj(e) : e.relabelled[i]} = StefRelabelled(e))
    \cup Broken("data returned although both classes remain",
                e.untouched => \/ Maj(e) \ (StefRemoved(e) \cup StefRelabelled(e)) = {}
                               \/ StefRemoved(e) = {} /\ StefRelabelled(e) = {} /\ \A i \in Rows(e) : StefCopies(e)[i] = 0)

Spy(e) == Broken("wrong rows relabelled", {i \in Maj(e) : e.relabelled[i]} = SpyRelabelled(e))

(* DSMOTE: geometric means of three different minority rows or earlier samples, in scaled coordinates *)
Geo(e) ==
    Broken("a synthetic sample is not the geometric mean of three minority rows",
           \A p \in DOMAIN e.pts : \E x \in DOMAIN e.pts[p] :
              LET s == Others(e.pts[p][x]) IN Cardinality(s) = 3 /\ \A j \in s : j > Len(e.mn) \/ e.kept[j])
    \cup Broken("minority rows are discarded beyond the rate", Cardinality({i \in Min(e) : ~e.kept[i]}) = (e.rate[1] * Cardinality(Min(e))) \div e.rate[2])
    \cup Broken("other rows are discarded than the most abnormal ones",
                {i \in Min(e) : ~e.kept[i]} = {i \in Min(e) : Cardinality({j \in Min(e) : e.far[j] > e.far[i]}) < (e.rate[1] * Cardinality(Min(e))) \div e.rate[2]})

Verdict(e) ==
    Broken("the sampler fails", e.err = "")
    \cup CASE e.err # "" -> {}
           [] e.op = "place" -> Placed(e)
           [] e.op = "stef" -> Stef(e)
           [] e.op = "spy" -> Spy(e)
           [] e.op = "geo" -> Geo(e)

Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

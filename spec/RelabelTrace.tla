---------------------------- MODULE RelabelTrace ----------------------------
(* Validates pairs of recorded calls, on data and on the same data with      *)
(* renamed classes.                                                          *)
EXTENDS TraceBase
VARIABLE l
R == INSTANCE Relabel WITH MaxN <- 0, From <- {}, To <- {}, y <- <<>>, ren <- <<>>
(* classes with an inner decision by the order of the labels (classifiers, ties of votes, roles recomputed on an  *)
(* intermediate set): only order preserving renamings are claimed for them                                        *)
Ranked == {"ADG", "AMSCO", "Borderline_SMOTE1", "Borderline_SMOTE2", "DE_oversampling", "E_SMOTE", "GASMOTE", "Gazzah", "IPADE_ID",
           "ISOMAP_Hybrid", "NRAS", "OUPS", "SMMO", "SMOTE_ENN", "SMOTE_IPF", "SMOTE_PSO", "SMOTE_PSOBAT", "SMOTEWB", "SSO", "Stefanowski",
           "Supervised_SMOTE", "SVM_balance", "VIS_RST", "SL_graph_SMOTE", "DSRBF", "CNNTomekLinks", "CondensedNearestNeighbors",
           "EditedNearestNeighbors", "NeighborhoodCleaningRule", "OneSidedSelection"}
RankFree(e) == e.cls \notin Ranked
Ren(e) == [v \in {e.from[1], e.from[2]} |-> IF v = e.from[1] THEN e.to[1] ELSE e.to[2]]
Claimed(e) == R!OrderPreserving(Ren(e)) \/ (~R!Tied(e.yin) /\ RankFree(e))
Mapped(e) == \A k \in DOMAIN e.y1 : e.y1[k] \in DOMAIN Ren(e)
Verdict(e) ==
    IF e.op = "roles" THEN
            Broken("roles are determined", e.err = "")
       \cup (IF e.err # "" THEN {} ELSE
               Broken("the rarer class is the minority", e.min = R!MinLabel(e.yin) /\ e.maj = R!MajLabel(e.yin))
          \cup Broken("class sizes", e.nmin = R!Count(e.yin, e.min) /\ e.nmaj = R!Count(e.yin, e.maj)))
    ELSE IF e.op # "relabel" THEN {"unknown event"}
    ELSE IF ~Claimed(e) THEN {}
    ELSE    Broken("same outcome", e.err1 = e.err2)
       \cup (IF e.err1 # "" \/ e.err2 # "" THEN {} ELSE
               Broken("labels of the input", Mapped(e))
          \cup Broken("same rows", e.x1 = e.x2)
          \cup Broken("labels renamed accordingly", Mapped(e) => e.y2 = R!Image(e.y1, Ren(e)))
          \cup Broken("the rarer class is the minority", e.extends =>
                        \A k \in DOMAIN e.y1 : k > Len(e.yin) => e.y1[k] = R!MinLabel(e.yin)))
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================

--------------------------- MODULE ParamDomainsMC ---------------------------
(* Generates the probes: every validated parameter with values on both sides *)
(* of and on each boundary of its domain, every option with allowed and      *)
(* unknown names.                                                            *)
EXTENDS ParamDomains, TLC, Json
VARIABLES p, v
Bounds(q) == IF q \in UnitInterval THEN {0, 1000}
             ELSE IF q \in AtLeast001 THEN {10}
             ELSE IF q \in AtLeast0 \cup Above0 THEN {0}
             ELSE IF q \in AtLeast1 \cup Above1 \cup Jobs THEN {1000}
             ELSE IF q \in AtLeast2 THEN {2000} ELSE {3000}
Probes(q) == {0, -1000, -7000, 500, 1000, 2000, 5000, 100000}
             \cup UNION {{b - 1000, b - 1, b, b + 1, b + 1000} : b \in Bounds(q)}
Opts == {"AHC.strategy", "ASMOBD.smoothing", "EditedNearestNeighbors.remove", "OversamplingDrivenUndersampling.mode", "SMOTE_AMSR.topology",
         "SMOTE_IPF.voting", "SMOTE_PSOBAT.method", "SOI_CJ.method", "Stefanowski.strategy", "TomekLinkRemoval.strategy", "ADG.kernel",
         "G_SMOTE.method", "MOT2LD.d_cut", "ss.simplex_sampling", "ss.within_simplex_sampling", "Multiclass.strategy"}
AllNames == UNION {Options(o) : o \in Opts}
Bogus == {"", "foo", "none", "Random", "rbf_0", "rbf_-1", "non-linear_0", "non-linear_-2", "poly_0"}
(* names of other parameters are unknown names, except those only differing in a numeric argument *)
Init == \/ p \in Known /\ v \in Probes(p)
        \/ p \in Opts /\ v \in AllNames \cup Bogus
Next == UNCHANGED <<p, v>>
Spec == Init /\ [][Next]_<<p, v>>
(* a probe is either inside or outside, and both sides are probed *)
Inv == /\ (p \in Known => InDomain(p, v) \in BOOLEAN /\ \E a, b \in Probes(p) : InDomain(p, a) /\ ~InDomain(p, b))
       /\ PrintT(<<"CASE", ToJson([p |-> p, v |-> v, num |-> (p \in Known)])>>)
=============================================================================

------------------------------- MODULE Queries -------------------------------
(* Queries over the registry of samplers (C18).  The registry is a sequence  *)
(* of records of attributes; a query is the subsequence satisfying a         *)
(* criterion, cut to the n quickest on request.                              *)
EXTENDS SVBase

(* the registered samplers, in registry order *)
Registry == <<
    "A_SUWO", "ADASYN", "ADG", "ADOMS", "AHC", "AMSCO", "AND_SMOTE", "ANS", "ASMOBD", "Assembled_SMOTE", 
    "Borderline_SMOTE1", "Borderline_SMOTE2", "CBSO", "CCR", "CE_SMOTE", "cluster_SMOTE", "CURE_SMOTE", 
    "DBSMOTE", "DE_oversampling", "DEAGO", "distance_SMOTE", "DSMOTE", "DSRBF", "E_SMOTE", "Edge_Det_SMOTE", 
    "G_SMOTE", "GASMOTE", "Gaussian_SMOTE", "polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus", 
    "polynom_fit_SMOTE_poly", "polynom_fit_SMOTE_mesh", "Gazzah", "IPADE_ID", "ISMOTE", "ISOMAP_Hybrid", 
    "KernelADASYN", "kmeans_SMOTE", "Lee", "LLE_SMOTE", "LN_SMOTE", "LVQ_SMOTE", "MCT", "MDO", "MOT2LD", 
    "MSYN", "MWMOTE", "NDO_sampling", "NEATER", "NRAS", "NRSBoundary_SMOTE", "NT_SMOTE", "OUPS", "PDFOS", 
    "ProWSyn", "Random_SMOTE", "ROSE", "RWO_sampling", "Safe_Level_SMOTE", "SDSMOTE", "Selected_SMOTE", 
    "SL_graph_SMOTE", "SMMO", "SMOBD", "SMOTE_Cosine", "SMOTE_D", "SMOTE_ENN", "SMOTE_FRST_2T", "SMOTE_IPF", 
    "SMOTE_OUT", "SMOTE_PSO", "SMOTE_PSOBAT", "SMOTE_RSB", "SMOTE_TomekLinks", "SMOTE", "SN_SMOTE", "SOI_CJ", 
    "SOMO", "SPY", "SSO", "Stefanowski", "SUNDO", "Supervised_SMOTE", "SVM_balance", "SYMPROD", "TRIM_SMOTE", 
    "V_SYNTH", "VIS_RST", "MSMOTE", "SMOTE_AMSR", "SMOTEWB" >>
NoiseFilters == {"TomekLinkRemoval", "CondensedNearestNeighbors", "CNNTomekLinks", "EditedNearestNeighbors", "NeighborhoodCleaningRule", "OneSidedSelection"}

(* attributes of a class: [name, categories (seq), params (seq), rank (dense rank of its recorded runtime),
   ss = [has, within, gauss, dim] the default simplex sampling parameters] *)
In(x, s) == \E i \in DOMAIN s : s[i] = x
HasProportion(c) == In("proportion", c.params)
MetricLearning(c) == In("metric_learning", c.categories)
Multiclass(c) == ~In("changes_majority", c.categories) /\ ~In("dim_reduction", c.categories) /\ HasProportion(c)
(* filter f = [within, exclude, gauss, dim]: <<>> no restriction, otherwise a sequence of admitted values *)
Simplex(c, f) ==
    /\ c.ss.has
    /\ f.use_within => In(c.ss.within, f.within)
    /\ f.use_exclude => ~In(c.ss.within, f.exclude)
    /\ f.use_gauss => c.ss.gauss = f.gauss
    /\ f.use_dim => In(c.ss.dim, f.dim)
Satisfies(c, q) ==
    CASE q.kind = "all" -> TRUE
      [] q.kind = "proportion" -> HasProportion(c)
      [] q.kind = "metric_learning" -> MetricLearning(c)
      [] q.kind = "multiclass" -> Multiclass(c)
      [] q.kind = "simplex" -> Simplex(c, q.filter)
Matching(reg, q) == SelectSeq(reg, LAMBDA c : Satisfies(c, q))

(* stable order by runtime *)
Faster(a, b) == a.rank < b.rank
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF Faster(x, s[Len(s)]) THEN Append(Insert(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)]) ELSE Append(s, x)
RECURSIVE SortBy(_)
SortBy(s) == IF s = <<>> THEN <<>> ELSE Insert(SortBy(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Quickest(s, n) == IF n = -1 THEN s ELSE SubSeq(SortBy(s), 1, Min(n, Len(s)))
Answer(reg, q) == Quickest(Matching(reg, q), q.n)
NamesOf(s) == [i \in DOMAIN s |-> s[i].name]

(* generated combinations: per class min(n_max, available) distinct ones of its grid; got = grid positions *)
CombinationsOK(got, avail, nmax) ==
    /\ Len(got) = Min(avail, nmax)
    /\ \A i \in DOMAIN got : got[i] \in 1..avail
    /\ Cardinality(Range(got)) = Len(got)
=============================================================================

--------------------------- MODULE SamplerContract ---------------------------
(* The advertised contract of every registered oversampler: the              *)
(* specification's own table, independent of the code.                       *)

(* advertised "extensive", and neither changing the majority, nor removing   *)
(* noise, nor reducing the dimension                                         *)
Extensive == {
    "ADASYN", "ADG", "AND_SMOTE", "ANS", "Assembled_SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "CBSO", "CCR",
    "CE_SMOTE", "cluster_SMOTE", "CURE_SMOTE", "DEAGO", "distance_SMOTE", "DSRBF", "Edge_Det_SMOTE", "G_SMOTE",
    "GASMOTE", "Gaussian_SMOTE", "polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus", "polynom_fit_SMOTE_poly",
    "polynom_fit_SMOTE_mesh", "KernelADASYN", "kmeans_SMOTE", "Lee", "LN_SMOTE", "LVQ_SMOTE", "MCT", "MSYN", "MWMOTE",
    "NDO_sampling", "NRSBoundary_SMOTE", "NT_SMOTE", "OUPS", "PDFOS", "ProWSyn", "Random_SMOTE", "ROSE",
    "RWO_sampling", "Safe_Level_SMOTE", "SDSMOTE", "Selected_SMOTE", "SL_graph_SMOTE", "SMMO", "SMOTE_Cosine",
    "SMOTE_D", "SMOTE_OUT", "SMOTE_PSO", "SMOTE_PSOBAT", "SMOTE_RSB", "SMOTE", "SN_SMOTE", "SOI_CJ", "SOMO", "SSO",
    "Supervised_SMOTE", "TRIM_SMOTE", "V_SYNTH", "SMOTE_AMSR" }

(* also keep their input complete although not (only) advertised so          *)
KeepsInput == Extensive \cup {"NoSMOTE", "ADOMS", "LLE_SMOTE", "MDO", "MSMOTE", "SMOBD", "ASMOBD", "DBSMOTE", "SMOTEWB", "SYMPROD"}

(* work on internally rescaled data: the rows come back up to rounding       *)
Rounding == {"DSRBF"}

DimReducing == {"E_SMOTE", "ISOMAP_Hybrid"}

(* quota discipline of the samplers with a proportion parameter *)
ExactQuota == {
    "ADASYN", "ADOMS", "AND_SMOTE", "ANS", "ASMOBD", "Assembled_SMOTE", "Borderline_SMOTE1", "Borderline_SMOTE2", "CBSO",
    "CE_SMOTE", "CURE_SMOTE", "DBSMOTE", "DEAGO", "DSRBF", "E_SMOTE", "Edge_Det_SMOTE", "G_SMOTE", "Gaussian_SMOTE",
    "KernelADASYN", "LLE_SMOTE", "LN_SMOTE", "LVQ_SMOTE", "Lee", "MCT", "MDO", "MSMOTE", "MSYN", "MWMOTE", "NRAS",
    "NRSBoundary_SMOTE", "NT_SMOTE", "OUPS", "PDFOS", "ProWSyn", "ROSE", "RWO_sampling", "Random_SMOTE", "SDSMOTE",
    "SL_graph_SMOTE", "SMMO", "SMOBD", "SMOTE", "SMOTEWB", "SMOTE_AMSR", "SMOTE_Cosine", "SMOTE_OUT", "SN_SMOTE",
    "SOI_CJ", "SOMO", "SYMPROD", "Safe_Level_SMOTE", "Selected_SMOTE", "Supervised_SMOTE", "TRIM_SMOTE", "V_SYNTH",
    "cluster_SMOTE", "distance_SMOTE", "kmeans_SMOTE", "polynom_fit_SMOTE_mesh" }
(* never more than requested *)
AtMostQuota == {"A_SUWO", "DE_oversampling", "DSMOTE", "Gazzah", "ISOMAP_Hybrid", "MOT2LD", "SMOTE_ENN", "SMOTE_IPF",
                "SMOTE_RSB", "SMOTE_TomekLinks"}
(* nothing is generated when nothing is requested *)
ZeroIsNone == ExactQuota \cup {"CCR", "NDO_sampling", "SMOTE_D", "SSO", "NEATER", "VIS_RST", "ADG", "SMOTE_RSB", "DSMOTE"}
(* decline only when nothing is requested or there are too few minority samples *)
MustGenerate == {"SMOTE", "ADOMS", "CBSO", "Lee", "MCT", "MSYN", "NT_SMOTE", "ProWSyn", "ROSE", "RWO_sampling", "Random_SMOTE", "SDSMOTE",
                 "SMOTE_OUT", "SMOTE_Cosine", "SN_SMOTE", "Selected_SMOTE", "Supervised_SMOTE", "distance_SMOTE", "LVQ_SMOTE",
                 "SMOTEWB", "Gaussian_SMOTE", "polynom_fit_SMOTE_mesh", "Edge_Det_SMOTE", "Safe_Level_SMOTE"}

(* smallest minority class that is sampled is MinNMin + 1 *)
MinNMin(c) == CASE c \in {"AMSCO", "IPADE_ID"} -> 4 [] c = "Stefanowski" -> 6 [] OTHER -> 2
(* least number of features *)
MinNDim(c) == IF c \in {"G_SMOTE", "V_SYNTH"} THEN 2 ELSE 1

(* synthetic samples inside the bounding box of the minority class *)
BoxMin == {
    "ADASYN", "AND_SMOTE", "ANS", "ASMOBD", "Assembled_SMOTE", "Borderline_SMOTE1", "CBSO", "CE_SMOTE", "CURE_SMOTE", "DBSMOTE",
    "Edge_Det_SMOTE", "GASMOTE", "G_SMOTE", "Lee", "MCT", "MSYN", "MWMOTE", "NRSBoundary_SMOTE", "NT_SMOTE", "ProWSyn", "Random_SMOTE",
    "SDSMOTE", "SMMO", "SMOBD", "SMOTE", "SMOTEWB", "SMOTE_AMSR", "SMOTE_D", "SMOTE_PSOBAT", "SMOTE_RSB", "SN_SMOTE", "SOMO", "SYMPROD",
    "Selected_SMOTE", "Supervised_SMOTE", "TRIM_SMOTE", "cluster_SMOTE", "distance_SMOTE", "kmeans_SMOTE",
    "polynom_fit_SMOTE_bus", "polynom_fit_SMOTE_mesh", "polynom_fit_SMOTE_star"}
(* ... of all samples *)
BoxAll == BoxMin \cup {"Borderline_SMOTE2", "LN_SMOTE", "MSMOTE", "NDO_sampling", "OUPS", "SL_graph_SMOTE", "Safe_Level_SMOTE", "NEATER"}
=============================================================================

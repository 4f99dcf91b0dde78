---------------------------- MODULE ParamDomains ----------------------------
(* The domains of the validated constructor parameters (C22); bounds and     *)
(* probed values in thousandths.                                             *)
EXTENDS Integers, Sequences

(* at least the bound *)
AtLeast0 == {
        "ADASYN.beta", "ADASYN.d_th", "ADASYN.proportion", "ADG.proportion", "ADOMS.proportion", "AMSCO.omega",
        "AMSCO.r1", "AMSCO.r2", "AND_SMOTE.proportion", "ANS.proportion", "ASMOBD.proportion", "A_SUWO.c_thres",
        "A_SUWO.proportion", "Assembled_SMOTE.proportion", "Borderline_SMOTE1.proportion",
        "Borderline_SMOTE2.proportion", "CBSO.proportion", "CCR.energy", "CCR.proportion", "CCR.scaling",
        "CE_SMOTE.proportion", "CURE_SMOTE.noise_th", "CURE_SMOTE.proportion", "DBSMOTE.proportion",
        "DEAGO.proportion", "DE_oversampling.proportion", "DSMOTE.proportion", "DSRBF.n_iter", "DSRBF.proportion",
        "E_SMOTE.proportion", "Edge_Det_SMOTE.proportion", "G_SMOTE.proportion", "Gaussian_SMOTE.proportion",
        "Gazzah.proportion", "ISMOTE.minority_weight", "ISOMAP_Hybrid.proportion", "KernelADASYN.proportion",
        "LLE_SMOTE.proportion", "LN_SMOTE.proportion", "LVQ_SMOTE.proportion", "Lee.proportion", "MCT.proportion",
        "MDO.K1_frac", "MDO.proportion", "MOT2LD.proportion", "MSMOTE.proportion", "MSYN.pressure",
        "MSYN.proportion", "MWMOTE.cf_th", "MWMOTE.cmax", "MWMOTE.proportion", "NDO_sampling.T",
        "NDO_sampling.proportion", "NEATER.alpha", "NEATER.h", "NEATER.proportion", "NRAS.proportion",
        "NRSBoundary_SMOTE.proportion", "NRSBoundary_SMOTE.w", "NT_SMOTE.proportion", "OUPS.proportion",
        "PDFOS.proportion", "ProWSyn.proportion", "ProWSyn.theta", "ROSE.proportion", "RWO_sampling.proportion",
        "Random_SMOTE.proportion", "SDSMOTE.proportion", "SL_graph_SMOTE.proportion", "SMMO.proportion",
        "SMOBD.max_eps", "SMOBD.proportion", "SMOBD.t", "SMOTE.proportion", "SMOTEWB.proportion",
        "SMOTE_AMSR.proportion", "SMOTE_Cosine.proportion", "SMOTE_D.proportion", "SMOTE_ENN.proportion",
        "SMOTE_FRST_2T.gamma_M", "SMOTE_FRST_2T.gamma_S", "SMOTE_IPF.p", "SMOTE_IPF.proportion",
        "SMOTE_OUT.proportion", "SMOTE_PSO.c1", "SMOTE_PSO.c2", "SMOTE_PSO.w", "SMOTE_PSOBAT.alpha",
        "SMOTE_PSOBAT.c1", "SMOTE_PSOBAT.c2", "SMOTE_PSOBAT.c3", "SMOTE_PSOBAT.gamma", "SMOTE_RSB.proportion",
        "SMOTE_TomekLinks.proportion", "SN_SMOTE.proportion", "SOI_CJ.proportion", "SOMO.proportion",
        "SSO.proportion", "SVM_balance.proportion", "SYMPROD.proportion", "Safe_Level_SMOTE.proportion",
        "Selected_SMOTE.proportion", "Supervised_SMOTE.proportion", "TRIM_SMOTE.proportion", "VIS_RST.proportion",
        "V_SYNTH.proportion", "cluster_SMOTE.proportion", "distance_SMOTE.proportion", "kmeans_SMOTE.irt",
        "kmeans_SMOTE.proportion", "polynom_fit_SMOTE_bus.proportion", "polynom_fit_SMOTE_mesh.proportion",
        "polynom_fit_SMOTE_poly.proportion", "polynom_fit_SMOTE_star.proportion" }
AtLeast001 == {
        "SYMPROD.cutoff_threshold" }
AtLeast1 == {
        "ADASYN.n_neighbors", "ADG.k", "ADOMS.n_neighbors", "AMSCO.n_iter", "AMSCO.n_pop", "ASMOBD.min_samples",
        "A_SUWO.n_clus_maj", "A_SUWO.n_neighbors", "Assembled_SMOTE.n_neighbors", "Assembled_SMOTE.pop",
        "Borderline_SMOTE1.k_neighbors", "Borderline_SMOTE1.n_neighbors", "Borderline_SMOTE2.k_neighbors",
        "Borderline_SMOTE2.n_neighbors", "CBSO.n_neighbors", "CE_SMOTE.h", "CE_SMOTE.k", "CURE_SMOTE.n_clusters",
        "DBSMOTE.min_samples", "DEAGO.n_neighbors", "DE_oversampling.n_clusters", "DSMOTE.n_neighbors",
        "DSMOTE.n_step", "DSRBF.n_neighbors", "DSRBF.n_sampling_epoch", "E_SMOTE.min_features",
        "E_SMOTE.n_neighbors", "Edge_Det_SMOTE.k", "GASMOTE.Ge", "GASMOTE.maxn", "GASMOTE.n_neighbors",
        "GASMOTE.n_pop", "G_SMOTE.n_neighbors", "Gaussian_SMOTE.n_neighbors", "Gazzah.n_components",
        "ISMOTE.n_neighbors", "ISOMAP_Hybrid.n_components", "ISOMAP_Hybrid.n_neighbors",
        "ISOMAP_Hybrid.smote_n_neighbors", "KernelADASYN.k", "LLE_SMOTE.n_components", "LN_SMOTE.n_neighbors",
        "LVQ_SMOTE.n_neighbors", "Lee.n_neighbors", "MCT.n_neighbors", "MDO.K2", "MOT2LD.k", "MOT2LD.n_components",
        "MSMOTE.n_neighbors", "MSYN.n_neighbors", "MWMOTE.M", "MWMOTE.k1", "MWMOTE.k2", "MWMOTE.k3",
        "NDO_sampling.n_neighbors", "NEATER.b", "NEATER.smote_n_neighbors", "NRAS.n_neighbors",
        "NRSBoundary_SMOTE.n_neighbors", "ProWSyn.L", "ProWSyn.n_neighbors", "Random_SMOTE.n_neighbors",
        "SDSMOTE.n_neighbors", "SL_graph_SMOTE.n_neighbors", "SMMO.n_neighbors", "SMOBD.min_samples",
        "SMOTE.n_neighbors", "SMOTEWB.n_iters", "SMOTE_Cosine.n_neighbors", "SMOTE_D.k", "SMOTE_ENN.n_neighbors",
        "SMOTE_FRST_2T.n_neighbors", "SMOTE_IPF.k", "SMOTE_IPF.n_neighbors", "SMOTE_OUT.n_neighbors", "SMOTE_PSO.k",
        "SMOTE_PSO.n_pop", "SMOTE_PSO.num_it", "SMOTE_PSOBAT.maxit", "SMOTE_RSB.n_neighbors",
        "SMOTE_TomekLinks.n_neighbors", "SN_SMOTE.n_neighbors", "SOI_CJ.n_neighbors", "SOMO.n_iter",
        "SPY.n_neighbors", "SSO.h", "SSO.n_iter", "SSO.n_neighbors", "SVM_balance.n_neighbors",
        "SYMPROD.k_neighbors", "SYMPROD.m_neighbors", "SYMPROD.std_outliers", "Safe_Level_SMOTE.n_neighbors",
        "Selected_SMOTE.n_neighbors", "TRIM_SMOTE.n_neighbors", "VIS_RST.n_neighbors", "V_SYNTH.n_components",
        "cluster_SMOTE.n_clusters", "cluster_SMOTE.n_neighbors", "distance_SMOTE.n_neighbors",
        "kmeans_SMOTE.n_clusters", "kmeans_SMOTE.n_neighbors" }
AtLeast2 == {
        "AND_SMOTE.K", "DE_oversampling.n_neighbors", "DSRBF.n_init_pop", "DSRBF.n_pop", "LLE_SMOTE.n_neighbors",
        "SMOTE_IPF.n_folds", "SOMO.n_grid" }
AtLeast3 == {
        "LVQ_SMOTE.n_clusters", "SMOTEWB.max_depth" }
Above0 == {
        "ADG.gamma", "ADG.lam", "ADG.mu", "ASMOBD.a", "ASMOBD.eps", "CBSO.C_p", "DBSMOTE.eps", "DEAGO.h",
        "DEAGO.sigma", "DSRBF.i_b", "DSRBF.o_b", "Gaussian_SMOTE.sigma", "IPADE_ID.F", "IPADE_ID.G", "IPADE_ID.OT",
        "IPADE_ID.max_it", "KernelADASYN.h", "SMOTE_PSO.eps", "SOMO.learning_rate", "SOMO.sigma" }
Above1 == {
        "DEAGO.e" }
Jobs == {
        "ADASYN.n_jobs", "ADG.n_jobs", "ADOMS.n_jobs", "AHC.n_jobs", "AMSCO.n_jobs", "AND_SMOTE.n_jobs",
        "ANS.n_jobs", "ASMOBD.n_jobs", "A_SUWO.n_jobs", "Assembled_SMOTE.n_jobs", "Borderline_SMOTE1.n_jobs",
        "Borderline_SMOTE2.n_jobs", "CBSO.n_jobs", "CCR.n_jobs", "CE_SMOTE.n_jobs", "CNNTomekLinks.n_jobs",
        "CURE_SMOTE.n_jobs", "CondensedNearestNeighbors.n_jobs", "DBSMOTE.n_jobs", "DEAGO.n_jobs",
        "DE_oversampling.n_jobs", "DSMOTE.n_jobs", "DSRBF.n_jobs", "E_SMOTE.n_jobs", "Edge_Det_SMOTE.n_jobs",
        "EditedNearestNeighbors.n_jobs", "GASMOTE.n_jobs", "G_SMOTE.n_jobs", "Gaussian_SMOTE.n_jobs",
        "Gazzah.n_jobs", "IPADE_ID.n_jobs", "ISMOTE.n_jobs", "ISOMAP_Hybrid.n_jobs", "KernelADASYN.n_jobs",
        "LLE_SMOTE.n_jobs", "LN_SMOTE.n_jobs", "LVQ_SMOTE.n_jobs", "Lee.n_jobs", "MCT.n_jobs", "MDO.n_jobs",
        "MOT2LD.n_jobs", "MSMOTE.n_jobs", "MSYN.n_jobs", "MWMOTE.n_jobs", "NDO_sampling.n_jobs", "NEATER.n_jobs",
        "NRAS.n_jobs", "NRSBoundary_SMOTE.n_jobs", "NT_SMOTE.n_jobs", "NeighborhoodCleaningRule.n_jobs",
        "OUPS.n_jobs", "OneSidedSelection.n_jobs", "PDFOS.n_jobs", "ProWSyn.n_jobs", "RWO_sampling.n_jobs",
        "Random_SMOTE.n_jobs", "SDSMOTE.n_jobs", "SL_graph_SMOTE.n_jobs", "SMMO.n_jobs", "SMOBD.n_jobs",
        "SMOTE.n_jobs", "SMOTEWB.n_jobs", "SMOTE_Cosine.n_jobs", "SMOTE_D.n_jobs", "SMOTE_ENN.n_jobs",
        "SMOTE_FRST_2T.n_jobs", "SMOTE_IPF.n_jobs", "SMOTE_OUT.n_jobs", "SMOTE_PSO.n_jobs", "SMOTE_PSOBAT.n_jobs",
        "SMOTE_RSB.n_jobs", "SMOTE_TomekLinks.n_jobs", "SN_SMOTE.n_jobs", "SOI_CJ.n_jobs", "SOMO.n_jobs",
        "SPY.n_jobs", "SSO.n_jobs", "SUNDO.n_jobs", "SVM_balance.n_jobs", "SYMPROD.n_jobs",
        "Safe_Level_SMOTE.n_jobs", "Selected_SMOTE.n_jobs", "Stefanowski.n_jobs", "Supervised_SMOTE.n_jobs",
        "TRIM_SMOTE.n_jobs", "TomekLinkRemoval.n_jobs", "VIS_RST.n_jobs", "V_SYNTH.n_jobs", "cluster_SMOTE.n_jobs",
        "distance_SMOTE.n_jobs", "kmeans_SMOTE.n_jobs" }
UnitInterval == {
        "ASMOBD.eta", "Assembled_SMOTE.thres", "CE_SMOTE.alpha", "DE_oversampling.crossover_rate",
        "DE_oversampling.similarity_threshold", "DSMOTE.rate", "GASMOTE.pm", "GASMOTE.pr", "Lee.rejection_level",
        "NRAS.t", "SMOBD.eta1", "SPY.threshold", "Selected_SMOTE.perc_sign_attr", "Supervised_SMOTE.th_lower",
        "Supervised_SMOTE.th_upper", "TRIM_SMOTE.min_precision" }

OrderOfPolynomial == {"polynom_fit_SMOTE_poly.order"}
Known == AtLeast0 \cup AtLeast001 \cup AtLeast1 \cup AtLeast2 \cup AtLeast3 \cup Above0 \cup Above1 \cup UnitInterval \cup Jobs

InDomain(p, v) ==
    CASE p \in AtLeast0 -> v >= 0
      [] p \in AtLeast001 -> v >= 10
      [] p \in AtLeast1 -> v >= 1000
      [] p \in AtLeast2 -> v >= 2000
      [] p \in AtLeast3 -> v >= 3000
      [] p \in Above0 -> v > 0
      [] p \in Above1 -> v > 1000
      [] p \in UnitInterval -> v >= 0 /\ v <= 1000
      [] p \in Jobs -> v >= 1000

(* options: allowed names *)
Options(p) ==
    CASE p = "AHC.strategy" -> {"min", "maj", "minmaj"}
      [] p = "ASMOBD.smoothing" -> {"sigmoid", "linear"}
      [] p = "EditedNearestNeighbors.remove" -> {"both", "min", "maj"}
      [] p = "OversamplingDrivenUndersampling.mode" -> {"random", "farthest"}
      [] p = "SMOTE_AMSR.topology" -> {"star", "bus", "mesh"}
      [] p = "SMOTE_IPF.voting" -> {"majority", "consensus"}
      [] p = "SMOTE_PSOBAT.method" -> {"bat", "pso"}
      [] p = "SOI_CJ.method" -> {"interpolation", "jittering"}
      [] p = "Stefanowski.strategy" -> {"weak_amp", "weak_amp_relabel", "strong_amp"}
      [] p = "TomekLinkRemoval.strategy" -> {"remove_majority", "remove_both"}
      [] p = "ADG.kernel" -> {"inner", "rbf_0.5", "rbf_1", "rbf_0.001"}
      [] p = "G_SMOTE.method" -> {"linear", "non-linear_2.0", "non-linear_0.01"}
      [] p = "MOT2LD.d_cut" -> {"auto"}
      [] p = "ss.simplex_sampling" -> {"random", "deterministic"}
      [] p = "ss.within_simplex_sampling" -> {"random", "deterministic"}
      [] p = "Multiclass.strategy" -> {"eq_1_vs_many_successive", "equalize_1_vs_many"}
      [] OTHER -> {}
============================================================================

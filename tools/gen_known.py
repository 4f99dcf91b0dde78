"""Writes known_findings.json (committed; no check writes it)."""
import json
import os
import re

F = []


def openf(i, prop, what, match):
    F.append({"id": f"{prop}-{i}", "property": prop, "status": "open", "what": what, "match": match})


def fixed(prop, commit, what):
    F.append({"id": f"{prop}-{commit}", "property": prop, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})


RAISES = [
    ("SSO", "ValueError", "re:^Input X contains NaN", "SSO.sample raises ValueError (NaN features) when a subspace of the minority is degenerate (constant or duplicated features)"),
    ("MDO", "ValueError", "re:^[Pp]robabilities contain NaN", "MDO.sample raises ValueError (weights are NaN) when no minority sample has minority neighbours"),
    ("ASMOBD", "ValueError", "re:^[Pp]robabilities are not non-negative", "ASMOBD.sample raises ValueError (negative weights) on some data"),
    ("LLE_SMOTE", "ValueError", "re:^Requested eigenvalue indices", "LLE_SMOTE.sample raises ValueError when n_components exceeds what the few minority samples allow"),
    ("KernelADASYN", "LinAlgError", "re:not positive definite|singular", "KernelADASYN.sample raises LinAlgError when the minority covariance is singular"),
    ("A_SUWO", "IndexError", "re:^index 0 is out of bounds", "A_SUWO.sample raises IndexError when a cross-validation fold of the minority is empty"),
    ("A_SUWO", "InvalidParameterError", "re:n_clusters", "A_SUWO.sample requests zero clusters when there are fewer minority samples than clusters"),
    ("ADG", "AttributeError", "re:NoneType", "ADG.sample raises AttributeError when the x-means clustering fails"),
    ("MOT2LD", "crash", "re:", "MOT2LD.sample crashes in the native t-SNE of scikit-learn on duplicated data"),
]
for prop in ("C01", "C02", "C04"):
    for n, (cls, err, msg, what) in enumerate(RAISES):
        if prop == "C01" and cls not in ("SSO", "LLE_SMOTE", "MDO", "ASMOBD", "KernelADASYN", "A_SUWO", "ADG", "MOT2LD"):
            continue
        openf(f"{cls}-{n}", prop, what, {"clause": "raises", "cls": cls, "err": err, "errmsg": msg})

FIXED = {
    "06e178c": ("C10", "OversamplingDrivenUndersampling failed on balanced data, on data with equidistant rows and when nearly all majority rows are needed"),
    "0059feb": ("C23", "SMOTE_IPF did not terminate with p=0"),
    "b025e85": ("C23", "the consensus of SMOTE_IPF never removed rows misclassified as the smaller label, majority ties were decided by the label values"),
    "366f22d": ("C21", "OversamplingClassifier could not predict with oversamplers having no preprocessing_transform (MulticlassOversampling)"),
    "3a91573": ("C17", "model_selection returned the worst pair for error rates and losses (fpr, fdr, fnr, brier, log_loss)"),
    "a6c0bb0": ("C20", "radius queries with a tensor returned object arrays unusable as indices when all rows had equally many neighbours, and ignored sort_results"),
    "bb04fe3": ("C20", "distances under singular tensors became NaN by rounding, the nearest points were returned as the farthest"),
    "268e819": ("C20", "distance computations recursed infinitely when a single row exceeded the memory chunk"),
    "cf7393e": ("C13", "cached results of another content of the dataset, validator or scaler were served"),
    "75cb7c9": ("C13", "names of datasets with special characters were taken as patterns, their files were not found"),
    "123135d": ("C13", "folding_files returned damaged folds and folds of another validator"),
    "5fb1ffb": ("C13", "damaged pickle files raised exceptions instead of being recomputed"),
    "284ad89": ("C14", "the pool blocked for ever when a process died while sending its result"),
    "5404458": ("C15", "the denominator of mcc overflowed for large counts"),
    "92cc45d": ("C18", "get_params of SMOTE_AMSR missed the class name"),
    "c93e4af": ("C19", "weighted edges were shrunk towards the wrong end in deterministic sampling"),
    "ef9f325": ("C19", "deterministic_sample decreased integer shares"),
    "7573be2": ("C07", "DSRBF trained its networks with the raw label values, the result depended on the labels"),
    "634930e": ("C22", "OversamplingDrivenUndersampling accepted unknown modes"),
    "ef7b506": ("C22", "ADASYN/MSYN accepted a negative proportion, SYMPROD an invalid n_jobs"),
    "d3759ee": ("C06", "get_params of OversamplingDrivenUndersampling did not return its constructor arguments"),
    "05f60b5": ("C04", "G_SMOTE overflowed to non finite samples with its kernel"),
    "8fac8f1": ("C20", "the covariance metric tensors failed for one feature"),
    "35302f5": ("C04", "SN_SMOTE failed with one neighbour"),
    "cf65f1b": ("C04", "CBSO failed with more neighbours than samples"),
    "f6fe05b": ("C06", "get_params of PDFOS, SOMO, SPY, SYMPROD, SMOTEWB missed parameters"),
    "4f44c7d": ("C06", "SOI_CJ changed its parameters during sampling"),
    "0fd49cd": ("C04", "SMOTE_AMSR returned the caller's arrays when no sampling was needed"),
    "e121e12": ("C02", "SSO generated samples when none were requested"),
    "50b3f6b": ("C07", "SMOTE_IPF supposed the labels 0 and 1"),
    "fde0bd2": ("C01", "ADG reordered the original samples"),
    "eb6f532": ("C21", "OversamplingClassifier did not apply the transformation of the oversampler to new data"),
    "9b235b1": ("C21", "MLPClassifierWrapper did not return max_iter among its parameters"),
    "ee84cbf": ("C20", "radius_neighbors ignored the radius of the object"),
    "723eb54": ("C20", "ClosestNeighborsInClasses returned vectors and labels that do not belong together"),
    "bf65c85": ("C15", "p_top20 was computed from the samples of lowest probability"),
    "4b90686": ("C10", "undersampling supposed the labels 0 and 1"),
    "00b4779": ("C06", "MOT2LD changed its parameters during sampling"),
    "08381d4": ("C05", "SMOTEWB did not pass its random state to the fallback SMOTE"),
    "9dd7179": ("C20", "the cov_min tensor was computed from the class labelled 1 instead of the minority"),
    "277c14c": ("C07", "SSO regressed the label values instead of the minority membership"),
    "d14bca4": ("C07", "SMMO supposed the labels 0 and 1"),
    "73c4c0a": ("C07", "SL_graph_SMOTE summed labels instead of counting minority neighbours"),
    "c84742b": ("C07", "NEATER assigned the labels 0 and 1"),
    "38e26d4": ("C07", "ADG supposed the labels 0 and 1"),
    "53417db": ("C06", "get_params of DEAGO missed parameters"),
    "7f1c479": ("C01", "KernelADASYN returned the original samples in the reduced dimensions"),
    "edea027": ("C07", "ISOMAP_Hybrid supposed the labels 0 and 1"),
    "03dfa72": ("C04", "ISOMAP_Hybrid transformed new data although the sampling was declined"),
    "bda29e5": ("C04", "E_SMOTE transformed new data although the sampling was declined"),
    "1025849": ("C05", "E_SMOTE used the global random state"),
    "810224e": ("C02", "ADASYN generated samples with proportion zero"),
    "1cf5126": ("C09", "multiclass oversampling missed the size of the largest class and failed on ties"),
    "dda8ae6": ("C17", "summaries dropped the results of oversamplers without simplex sampling"),
    "d50a9ff": ("C14", "the process pool dead-locked on large results"),
    "9a28316": ("C13", "an incomplete set of cached folds was served"),
    "0f4eaaa": ("C13", "a damaged pickle file raised instead of being recomputed"),
    "302cc4c": ("C13", "an interrupted write left a partial cache file"),
    "5c835da": ("C11", "Folding indexed the class counts by label value"),
    "15f4468": ("C11", "all folds shared one descriptor"),
    "58a7ff7": ("C24", "strong amplification of Stefanowski judged all unsafe minority samples by the label most frequent among their nearest neighbors"),
    "78a7caa": ("C24", "TRIM-SMOTE counted no minority samples right of a split, so its trim value was that of the left side"),
    "93426a0": ("C24", "TRIM-SMOTE looked for class borders one sample before the split"),
    "11a62d7": ("C24", "SOI_CJ dropped the clusters of minority samples without majority samples nearby and declined on separated classes"),
    "9736499": ("C24", "SOI_CJ stored rearranged clusters at the wrong place, emptying unrelated ones"),
    "4bbc67d": ("C24", "SOI_CJ compared a Euclidean radius with the distances of the metric tensor"),
    "9f72452": ("C24", "SOI_CJ merged clusters or not depending on rounding errors"),
    "888d133": ("C24", "Borderline-SMOTE, ISMOTE and VIS_RST never sampled towards the nearest neighbour; k_neighbors=1 copied the bases"),
    "6fe0c4e": ("C12", "SamplingJob applied the oversampler's transformation to the unscaled test set"),
}
for c, (p, w) in FIXED.items():
    fixed(p, c, w)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    extra = os.path.join(here, "tools", "known_extra.json")
    if os.path.exists(extra):
        F += json.load(open(extra))
    for f in F:
        if f["status"] == "open":
            for v in f["match"].values():
                if isinstance(v, str) and v.startswith("re:"):
                    re.compile(v[3:])
    json.dump({"findings": F}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)

"""Driver for C09."""
import copy

import numpy as np

import drv_sampler as D
import env

sv = env.load_sv()
EXACT = ["SMOTE", "distance_SMOTE", "Random_SMOTE", "MCT", "SDSMOTE", "Lee", "ProWSyn", "NT_SMOTE", "SMOTEWB", "ROSE", "RWO_sampling", "CBSO",
         "SMOTE_Cosine", "SMOTE_OUT", "Gaussian_SMOTE", "Selected_SMOTE", "polynom_fit_SMOTE_mesh", "Supervised_SMOTE", "MSYN", "ADOMS", "LVQ_SMOTE"]
BOX = {"SMOTE", "distance_SMOTE", "Random_SMOTE", "MCT", "SDSMOTE", "Lee", "ProWSyn", "NT_SMOTE", "SMOTEWB", "CBSO", "polynom_fit_SMOTE_mesh",
       "Selected_SMOTE", "Supervised_SMOTE", "MSYN", "ADASYN", "cluster_SMOTE", "kmeans_SMOTE", "Assembled_SMOTE", "Borderline_SMOTE1"}
LOOSE = ["ADASYN", "Borderline_SMOTE1", "cluster_SMOTE", "kmeans_SMOTE", "Assembled_SMOTE", "Safe_Level_SMOTE", "LN_SMOTE", "SOMO", "OUPS", "MWMOTE"]
LABELSETS = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [3, -1, 7, 100, 0, 5, 2], [1, 0, 2, 5, 4, 3, 9], [-3, -2, -1, 10, 11, 12, 13]]


def run_case(t):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    sizes = t["sizes"]
    perm = r.permutation(len(sizes))
    labs = LABELSETS[t["seed"] % len(LABELSETS)]
    d = int(r.randint(2, 4))
    Xs, ys = [], []
    sep = t.get("sep", True)
    for k, c in enumerate(perm):
        m = sizes[c]
        X = r.normal(size=(m, d))
        if sep:
            X[:, 0] += 20.0 * k
        Xs.append(X)
        ys += [labs[k]] * m
    X, y = np.vstack(Xs), np.array(ys)
    p = r.permutation(len(y))
    X, y = X[p], y[p]
    pars = {"random_state": int(t["seed"] % 1000) if t["seed"] % 5 else 0}
    if t.get("nn"):
        pars["n_neighbors"] = t["nn"]
    par0 = copy.deepcopy(pars)
    X0, y0 = X.copy(), y.copy()
    ev = dict(op="mc", cls=t["cls"], seed=t["seed"], strategy=t["strategy"], sizes=sizes, yin=[int(v) for v in y], exact=t["cls"] in EXACT, err="",
              errmsg="", yout=[], rows=True, origin=[], pure=True, psame=True)
    try:
        mc = sv.MulticlassOversampling(t["cls"], oversampler_params=pars, strategy=t["strategy"])
        g0 = D.params_repr(mc.get_params())
        Xo, yo = mc.sample(X, y)
    except Exception as e:  # noqa
        ev.update(err=type(e).__name__, errmsg=str(e)[:150])
        return [ev]
    ev["psame"] = D.params_repr(mc.get_params()) == g0 and pars == par0
    ev["pure"] = bool(np.array_equal(X, X0) and np.array_equal(y, y0))
    ev["yout"] = [int(v) for v in yo]
    n = len(y)
    ev["rows"] = bool(len(Xo) == len(yo) and Xo.shape[1] == d and np.array_equal(Xo[:n], X0))
    if sep and t["cls"] in BOX and len(Xo) == len(yo):
        for s in Xo[n:]:
            # the class clusters are 20 apart along the first axis
            k = int(round(s[0] / 20.0))
            ev["origin"].append(labs[k] if 0 <= k < len(perm) else -999)
    return [ev]

"""Generator of two-class (and multi-class) datasets and of sampler parameterisations.
Everything is a function of an integer seed."""
import numpy as np

LABELS = [(0, 1), (0, 1), (1, 0), (-1, 1), (1, -1), (5, 7), (7, 5), (0, 2), (100, 3), (2, 1)]
KINDS = ["n", "n", "n", "n", "dup", "const", "big", "tiny", "hi", "sep", "scale", "shift", "ident", "grid", "mix", "dupmin"]


def dataset(seed, kind=None, small=False, labels=None, layout=None, ratio=None):
    """(info, X, y); the majority label is info['maj'], the minority info['min']"""
    r = np.random.RandomState(seed % (2 ** 31))
    kind_ = r.choice(KINDS)
    kind = kind or kind_
    d = int(r.choice([1, 2, 2, 3, 5, 7]))
    nmin = int(r.randint(3, 14))
    nmaj = nmin + int(r.randint(1, 30))
    if kind == "big" and not small:
        nmin = int(r.randint(15, 41))
        nmaj = nmin + int(r.randint(10, 80))
    if kind == "tiny":
        nmin = int(r.randint(1, 5))
        nmaj = nmin + int(r.randint(0, 8))
    if kind == "hi":
        d = int(r.randint(8, 21))
    if ratio is not None:
        nmaj = max(nmin, int(nmin * ratio))
    X = np.vstack([r.normal(size=(nmaj, d)), r.normal(size=(nmin, d)) + r.choice([0, 0.7, 1.5, 3])])
    if kind == "sep":
        X[nmaj:] += 10
    if kind == "dup":
        X = np.round(X, 0)
    if kind == "const":
        X[:, 0] = 1.0
    if kind == "scale":
        X *= 10 ** r.uniform(-3, 4)
    if kind == "shift":
        X += r.uniform(-500, 500, size=d)
    if kind == "ident":
        X[nmaj + nmin // 2:] = X[-1]
    if kind == "grid":
        X = r.randint(0, 6, size=X.shape).astype(float)
    if kind == "mix":
        X *= 10 ** r.uniform(-2, 2, size=d)
    if kind == "dupmin":
        X[nmaj] = X[0]
    lmaj, lmin = labels or LABELS[r.randint(len(LABELS))]
    y = np.array([lmaj] * nmaj + [lmin] * nmin)
    order = r.choice(["perm", "perm", "perm", "majfirst", "minfirst"])
    if order == "perm":
        p = r.permutation(len(y))
    elif order == "majfirst":
        p = np.arange(len(y))
    else:
        p = np.arange(len(y))[::-1]
    X, y = X[p], y[p]
    lay = r.choice(["c", "c", "c", "f", "view", "int", "f32", "ylist"])
    lay = layout or lay
    if lay == "f":
        X = np.asfortranarray(X)
    elif lay == "view":
        Z = np.zeros((2 * len(X), X.shape[1] + 1))
        Z[::2, 1:] = X
        X = Z[::2, 1:]
    elif lay == "int":
        X = np.round(X * (3 if np.abs(X).max() < 1e3 else 1)).astype(int)
    elif lay == "f32":
        X = X.astype(np.float32)
    return {"seed": int(seed), "kind": str(kind), "n_maj": nmaj, "n_min": nmin, "d": d, "maj": int(lmaj), "min": int(lmin),
            "order": str(order), "layout": str(lay)}, X, y


DYADIC = [0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.0, 1.5, 2.0, 3.0]
SS_MODES = [("random", "random"), ("random", "deterministic"), ("deterministic", "random"), ("deterministic", "deterministic")]


NN_LEAST = {"DE_oversampling": 2, "LLE_SMOTE": 2}


def ctor_args(cls):
    import inspect
    return {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items()
            if k != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}


def params(cls, seed, gaussian=False, metric=True, light=False):
    """a valid parameterisation of an oversampler class"""
    r = np.random.RandomState((seed * 7 + 3) % (2 ** 31))
    combs = cls.parameter_combinations()
    pc = dict(combs[r.randint(len(combs))]) if len(combs) and r.rand() < 0.75 else {}
    args = ctor_args(cls)
    if "proportion" in args and r.rand() < 0.6:
        pc["proportion"] = float(r.choice(DYADIC))
    if "n_neighbors" in args and r.rand() < 0.25:
        k = int(r.choice([1, 2, 3, 15, 50]))
        pc["n_neighbors"] = max(k, NN_LEAST.get(cls.__name__, 1)) if cls.__name__ != "ISOMAP_Hybrid" else 3
    if light and "n_jobs" in args:
        pc["n_jobs"] = 1
    if "ss_params" in args and r.rand() < 0.5:
        ss, ws = SS_MODES[r.randint(4)]
        pc["ss_params"] = {"n_dim": int(r.choice([2, 2, 3])) if ws == "random" else 2, "simplex_sampling": ss, "within_simplex_sampling": ws,
                           "gaussian_component": None}
        if gaussian and r.rand() < 0.3:
            pc["ss_params"]["gaussian_component"] = {"sigma": float(r.choice([0.01, 0.5]))}
    if metric and "nn_params" in args and r.rand() < 0.12:
        pc["nn_params"] = [{"metric": "euclidean"}, {"metric": "manhattan"}, {"metric": "precomputed", "metric_learning_method": "cov"},
                           {"metric": "precomputed", "metric_learning_method": "cov_min"},
                           {"metric": "precomputed", "metric_learning_method": "id"}][r.randint(5)]
    return pc


SLOW = {"DEAGO": 20.0, "DSRBF": 4.0, "AMSCO": 4.0, "IPADE_ID": 3.0, "SMOTE_PSOBAT": 2.0, "DSMOTE": 0.6, "GASMOTE": 0.5, "SMOTE_PSO": 0.4,
        "ADG": 0.5, "E_SMOTE": 0.5, "SMOTE_AMSR": 0.5, "NEATER": 0.1, "MOT2LD": 0.3, "SMOTE_IPF": 0.2, "DE_oversampling": 0.2, "SOMO": 0.15,
        "VIS_RST": 0.15, "SMOTE_FRST_2T": 0.1, "CE_SMOTE": 0.1}


def budget(cls_name, full, seconds):
    """number of cases of a class"""
    return max(1, min(full, int(seconds / SLOW.get(cls_name, 0.01))))

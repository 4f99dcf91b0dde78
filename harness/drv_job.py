"""Driver for C12: sampling jobs with the evaluation jobs built on them."""
import copy
import json
import os
import pickle
import shutil
import tempfile

import numpy as np
from sklearn import preprocessing

import data
import env

sv = env.load_sv()
import stubs  # noqa: E402
from smote_variants.base import load_dict, calculate_all_scores  # noqa: E402
from smote_variants.evaluation import SamplingJob, EvaluationJob  # noqa: E402

KEYS = ["X_train", "y_train", "X_test", "y_test"]
SCALERS = {"none": None, "standard": ("sklearn.preprocessing", "StandardScaler", {}), "minmax": ("sklearn.preprocessing", "MinMaxScaler", {}),
           "robust": ("sklearn.preprocessing", "RobustScaler", {"quantile_range": (10.0, 90.0)})}
REAL = ["SMOTE", "ADASYN", "Borderline_SMOTE1", "NoSMOTE", "SMOTE_TomekLinks", "ISOMAP_Hybrid", "ROSE", "distance_SMOTE", "MDO", "KernelADASYN", "SMOTE_D",
        "CCR", "Gazzah", "polynom_fit_SMOTE_star", "NDO_sampling", "Safe_Level_SMOTE", "SMOTEWB", "MSMOTE", "CURE_SMOTE", "TRIM_SMOTE", "SPY", "E_SMOTE",
        "OUPS", "SMOBD", "DBSMOTE", "ProWSyn", "LVQ_SMOTE", "RWO_sampling"]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(np.abs(b).max()) if b.size else 1.0)))


def fold_of(seed):
    r = np.random.RandomState(seed % 2 ** 31)
    d = int(r.choice([2, 3, 5]))
    nmin, nmaj = int(r.randint(8, 15)), int(r.randint(18, 40))
    X = np.vstack([r.normal(size=(nmaj, d)), r.normal(size=(nmin, d)) + 1.2]) * 10 ** r.uniform(-1, 2, size=d) + r.uniform(-5, 5, size=d)
    if seed % 7 == 0:
        X[:, 0] = 3.0
    y = np.array([0] * nmaj + [1] * nmin)
    p = r.permutation(len(y))
    X, y = X[p], y[p]
    k = len(y) // 4
    frac = [0.25, 0.25, 0.5, 0.7, 0.1][seed % 5]
    if frac > 0.5:      # keep enough rows for training
        X = np.vstack([X, X + r.normal(size=X.shape) * 0.3])
        y = np.hstack([y, y])
    test = np.zeros(len(y), bool)
    for v in (0, 1):
        i = np.where(y == v)[0]
        test[r.permutation(i)[:max(1 if frac == 0.1 else 2, int(len(i) * frac))]] = True
    desc = {"name": "db", "repeat_idx": int(r.randint(3)), "fold_idx": int(r.randint(5)), "split_idx": int(k), "n_splits": 5, "n_repeats": 3,
            "label_stats": {"min_label": int(nmin), "maj_label": int(nmaj)}, "imbalance_ratio": nmaj / nmin, "db_n": len(y), "db_n_attr": d}
    return {"X_train": X[~test], "y_train": y[~test], "X_test": X[test], "y_test": y[test], "fold_descriptor": desc}


def write(fold, path, ser):
    if ser == "pickle":
        with open(path, "wb") as f:
            pickle.dump(fold, f)
    else:
        with open(path, "w") as f:
            json.dump({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in fold.items()}, f)


def sampling(fold, t, tmp, name, params, sub):
    cfg = t["cfg"]
    src = copy.deepcopy(fold)
    if cfg["source"] != "dict":
        fn = os.path.join(tmp, f"{sub}.{cfg['source']}")
        write(src, fn, cfg["source"])
        src = fn
    cache = None
    ser = "json"
    if cfg["store"] != "memory":
        cache = os.path.join(tmp, "cache" + sub)
        ser = cfg["store"]
    job = SamplingJob(src, name, copy.deepcopy(params), scaler=SCALERS[cfg["scaler"]], cache_path=cache, serialization=ser)
    res = job.timeout() if cfg["mode"] == "timeout" else (job.execute() if t["seed"] % 2 else job.do_oversampling())
    return src, res, cache, ser


def run_case(t):
    cfg, seed = t["cfg"], t["seed"]
    fold = fold_of(seed)
    name = t.get("real") or stubs.OS[cfg["os"]].__name__
    params = dict(t.get("params") or {})
    params["random_state"] = seed % 1000 if seed % 5 else 0
    cls = getattr(sv, name)
    ev = {"op": "job", "cfg": cfg, "seed": seed, "name": name, "err": "", "xtrain": [], "xtest": [], "ytrain_ok": {"raw": False, "sampled": False},
          "ytest_ok": False, "error": False, "runtime_neg": False, "desc_ok": False, "os_ok": False, "fold_ok": True, "leak_free": True, "n_eval": 0, "n_cl": 0,
          "evals": []}
    tmp = tempfile.mkdtemp(prefix="verif_job_")
    try:
        # the reference forms of the data
        Xt, yt, Xe, ye = (fold[k].copy() for k in KEYS)
        forms = {"raw": (Xt, Xe)}
        sc = {"none": None, "standard": preprocessing.StandardScaler(), "minmax": preprocessing.MinMaxScaler(),
              "robust": preprocessing.RobustScaler(quantile_range=(10.0, 90.0))}[cfg["scaler"]]
        Xs, Xes = (Xt, Xe) if sc is None else (sc.fit(Xt).transform(Xt), sc.transform(Xe))
        if sc is not None:
            forms["scaled"] = (Xs, Xes)
        smp = None
        try:
            ref = cls(**params)
            Xa, ya = ref.sample(Xs.copy(), yt.copy())
            Xb = ref.preprocessing_transform(Xes.copy())
            smp = (np.asarray(Xa), np.asarray(ya), np.asarray(Xb))
        except (ValueError, RuntimeError):
            pass
        if t.get("real") and smp is None:
            ev["cfg"] = cfg = dict(cfg, os="sample ValueError")
        np.random.seed(seed % 1000)
        src, res, cache, ser = sampling(fold, t, tmp, name, params, "a")
        ev["fold_ok"] = bool(not isinstance(src, dict) or all(np.array_equal(src[k], fold[k]) for k in KEYS) and src["fold_descriptor"] == fold["fold_descriptor"])
        out = load_dict(res, ser, KEYS) if isinstance(res, str) else res
        ev["xtrain"] = [k for k, f in forms.items() if close(out["X_train"], f[0])]
        ev["xtest"] = [k for k, f in forms.items() if close(out["X_test"], f[1])]
        if smp is not None:
            if close(out["X_train"], smp[0]):
                ev["xtrain"].append("sampled")
            if close(out["X_test"], smp[2]):
                ev["xtest"].append("transformed")
            ev["ytrain_ok"]["sampled"] = close(out["y_train"], smp[1])
        ev["ytrain_ok"]["raw"] = close(out["y_train"], yt)
        if sc is None:
            ev["xtrain"] += ["scaled"] * ("raw" in ev["xtrain"])
            ev["xtest"] += ["scaled"] * ("raw" in ev["xtest"])
        ev["ytest_ok"] = close(out["y_test"], ye)
        ev["error"] = bool(out["error"])
        ev["runtime_neg"] = bool(out["runtime"] < 0)
        ev["desc_ok"] = json.loads(json.dumps(out["fold_descriptor"])) == json.loads(json.dumps(fold["fold_descriptor"]))
        ev["os_ok"] = bool(out["oversampler"].get("class_name") == name and all(out["oversampler"].get(k) == v for k, v in params.items()))
        # the training data must not depend on the test fold
        r = np.random.RandomState(seed % 2 ** 31 + 5)
        alt = dict(copy.deepcopy(fold), X_test=fold["X_test"][::-1] * 50 + 7, y_test=fold["y_test"][::-1].copy())
        np.random.seed(seed % 1000)
        _, res2, _, _ = sampling(alt, t, tmp, name, params, "b")
        out2 = load_dict(res2, ser, KEYS) if isinstance(res2, str) else res2
        ev["leak_free"] = bool(np.array_equal(out["X_train"], out2["X_train"]) and np.array_equal(out["y_train"], out2["y_train"]))
        # evaluation
        kinds = [cfg["cl"]] + [["ok", "fit ValueError", "predict RuntimeError", "ok"][i] for i in r.permutation(4)[:int(r.randint(0, 3))]]
        specs = []
        for i, k in enumerate(kinds):
            if k == "ok":
                specs.append([("stubs", "ClOk", {"C": float([1.0, 0.5, 2.0][i])}), ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3 + i}),
                              ("sklearn.tree", "DecisionTreeClassifier", {"max_depth": 3, "random_state": i})][r.randint(3)])
            else:
                specs.append(("stubs", stubs.CL[k].__name__, {"tag": i}))
        before = copy.deepcopy(out)
        job = EvaluationJob(res, specs, cache_path=cache, serialization=ser)
        evs = job.do_evaluation()
        ev["n_cl"], ev["n_eval"] = len(specs), len(evs)
        for i, (spec, e) in enumerate(zip(specs, evs)):
            e = load_dict(e, ser, ["y_pred", "y_test"]) if isinstance(e, str) else e
            pred = np.asarray(e["y_pred"], dtype=float)
            d = {"cl": kinds[i], "pred": "other", "error": bool(e["error"]), "ytest_ok": close(e["y_test"], ye), "os_error": bool(e["oversampling_error"])}
            if kinds[i] == "ok":
                c = sv.base.instantiate_obj(spec)
                want = c.fit(before["X_train"], np.asarray(before["y_train"])).predict_proba(before["X_test"])[:, 1]
                if close(pred, want):
                    d["pred"] = "predicted"
            else:
                want = np.zeros(len(ye))
                if close(pred, want):
                    d["pred"] = "zeros"
            s = calculate_all_scores(np.asarray(ye), want)
            d["scores_ok"] = all((s[k] is None) == (e["scores"][k] is None) and (s[k] is None or abs(s[k] - e["scores"][k]) < 1e-9) for k in sv.base.all_scores)
            op = e["oversampler_params"]
            d["ident"] = bool(e["oversampler"] == name and e["oversampler_module"] == "smote_variants" and all(op.get(k) == v for k, v in params.items())
                              and (e["classifier_module"], e["classifier"], e["classifier_params"]) == spec
                              and json.loads(json.dumps(e["fold_descriptor"])) == json.loads(json.dumps(fold["fold_descriptor"])))
            ev["evals"].append(d)
    except Exception as e:  # noqa
        import traceback
        ev["err"] = f"{type(e).__name__}: {e}"[:200] + " | " + traceback.format_exc().strip().splitlines()[-2].strip()[:120]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [ev]

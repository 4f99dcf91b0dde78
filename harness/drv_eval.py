"""Driver for C16 and C17: evaluations in all execution modes, model selections, summaries; compared with the
pipeline fold -> scale -> sample -> fit -> predict carried out directly."""
import ast
import copy
import json
import logging
import os
import random
import shutil
import tempfile
import traceback
import warnings

import numpy as np
import pandas as pd
from sklearn.model_selection import RepeatedStratifiedKFold

import env

sv = env.load_sv()
import stubs  # noqa: E402
import stubs_b  # noqa: E402,F401
from smote_variants.base import calculate_all_scores, load_dict  # noqa: E402
from smote_variants.evaluation import (evaluate_oversamplers, model_selection, do_clean_up, do_parse_results, create_summary,  # noqa: E402
                                       datasets_in_cache, load_dataset_data)

warnings.filterwarnings("ignore")
S = "smote_variants"
OSS = [(S, "SMOTE", {"random_state": 5, "n_jobs": 1}), (S, "SMOTE", {"random_state": 0}), (S, "SMOTE", {"n_neighbors": 3, "random_state": 5}), (S, "NoSMOTE", {}),
       (S, "Borderline_SMOTE1", {"random_state": 5, "k_neighbors": 3}), (S, "ADASYN", {"random_state": 2, "proportion": 0.5}), (S, "distance_SMOTE", {"random_state": 3}),
       (S, "SMOTE_TomekLinks", {"random_state": 5, "proportion": 1.0}), (S, "polynom_fit_SMOTE_star", {"proportion": 0.75, "random_state": 1}), (S, "ROSE", {"random_state": 7}),
       (S, "SMOTE", {"random_state": 5, "ss_params": {"n_dim": 2, "simplex_sampling": "random", "within_simplex_sampling": "deterministic", "gaussian_component": None}}),
       (S, "ISOMAP_Hybrid", {"n_neighbors": 3, "n_components": 2, "random_state": 5}), (S, "CCR", {"random_state": 9}), (S, "Safe_Level_SMOTE", {"random_state": 8, "n_neighbors": 4})]
FAILING = [(S, "StubSampleValueError", {}), (S, "StubTransformRuntimeError", {}), (S, "StubReduces", {"tag": 2})]
CLS = [("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3}), ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 5, "weights": "distance"}),
       ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5, "max_depth": 3}), ("sklearn.linear_model", "LogisticRegression", {}), ("sklearn.naive_bayes", "GaussianNB", {}),
       ("sklearn.naive_bayes", "BernoulliNB", {}), ("sklearn.tree", "ExtraTreeClassifier", {"random_state": 5, "max_depth": 3}), ("stubs", "ClLogs", {"tag": 2}), ("stubs_b", "ClLogs", {"tag": 2}), ("stubs", "ClFitValueError", {}), ("stubs", "ClPredictRuntimeError", {"tag": 1})]
USABLE = [c for c in CLS if not c[0].startswith("stubs")]
PAIRS = [[c for c in CLS if c[0] == "sklearn.naive_bayes"], [c for c in CLS if c[0] == "sklearn.tree"], [c for c in CLS if c[1] == "ClLogs"]]
ALIKE = [c for p in PAIRS for c in p]
SCALERS = [("sklearn.preprocessing", "StandardScaler", {}), ("sklearn.preprocessing", "MinMaxScaler", {}), None]
_ref = {}


def plain(v):
    return json.loads(json.dumps(v))


def near(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def dataset(seed, name):
    r = np.random.RandomState(seed % 2 ** 31)
    d = int(r.choice([2, 3, 4]))
    nmin, nmaj = int(r.randint(9, 16)), int(r.randint(20, 36))
    X = np.vstack([r.normal(size=(nmaj, d)), r.normal(size=(nmin, d)) + 1.0]) * 10 ** r.uniform(-1, 2, size=d)
    lab = (0, 1) if seed % 5 else (1, 0)
    y = np.array([lab[0]] * nmaj + [lab[1]] * nmin)
    p = r.permutation(len(y))
    return {"data": X[p], "target": y[p], "name": name, "DESCR": "generated"}


def reference(ds, seed, vp, scaler, o, c):
    """{fold: (y_pred, y_test, scores, oversampling failed, classifier failed)}"""
    k0 = (seed, str(vp), str(scaler))
    key = (*k0, str(o), str(c))
    if key in _ref:
        return _ref[key]
    if len(_ref) > 4000:
        _ref.clear()
    X, y = ds["data"], ds["target"]
    out = {}
    for i, (tr, te) in enumerate(RepeatedStratifiedKFold(**vp).split(X, y, y)):
        ks = (*k0, str(o), i)
        if ks not in _ref:
            Xt, Xe = X[tr], X[te]
            if scaler is not None:
                s = stubs.make(scaler)
                Xt = s.fit_transform(Xt)
                Xe = s.transform(Xe)
            obj = stubs.make((o[0], o[1], copy.deepcopy(o[2])))
            failed = False
            try:
                Xs, ys = obj.sample(Xt, y[tr])
                Xe2 = obj.preprocessing_transform(Xe)
            except (ValueError, RuntimeError):
                Xs, ys, Xe2, failed = Xt, y[tr], Xe, True
            _ref[ks] = Xs, ys, Xe2, failed
        Xs, ys, Xe, failed = _ref[ks]
        cl = stubs.make((c[0], c[1], copy.deepcopy(c[2])))
        clf = False
        try:
            p = cl.fit(Xs, ys).predict_proba(Xe)[:, 1]
        except (ValueError, RuntimeError):
            p, clf = np.zeros(len(te)), True
        out[f"{i // vp['n_splits']}_{i % vp['n_splits']}"] = (p, y[te], calculate_all_scores(y[te], p), failed, clf)
    _ref[key] = out
    return out


def full_params(o):
    obj = stubs.make((o[0], o[1], copy.deepcopy(o[2])))
    return {**plain(o[2]), **plain(obj.get_params())}


def combo_of(x, oss, cls):
    """indices of the specifications a result or row names"""
    op = x["oversampler_params"] if isinstance(x["oversampler_params"], dict) else ast.literal_eval(x["oversampler_params"])
    cp = x["classifier_params"] if isinstance(x["classifier_params"], dict) else ast.literal_eval(x["classifier_params"])
    a = [i for i, o in enumerate(oss) if (o[0], o[1]) == (x["oversampler_module"], x["oversampler"]) and plain(op) == full_params(o)]
    b = [i for i, c in enumerate(cls) if (c[0], c[1]) == (x["classifier_module"], x["classifier"]) and plain(cp) == plain(c[2])]
    return (f"o{a[0]}" if len(a) == 1 else "unknown"), (f"c{b[0]}" if len(b) == 1 else "unknown")


def setting(t, fail=True):
    rnd = random.Random(t["seed"])
    cfg = t["cfg"]
    forked = cfg["store"] != "memory" or cfg["jobs"] == 1     # stand-in oversamplers are known to forked processes only
    oss = rnd.sample(OSS, rnd.choice([2, 2, 3]) if t["nd"] > 1 else rnd.choice([2, 3, 4]))
    if fail and forked and rnd.random() < 0.4:
        oss[rnd.randrange(len(oss))] = rnd.choice(FAILING)
    cls = rnd.sample(CLS if fail else USABLE, rnd.choice([1, 2, 3]))
    if rnd.random() < 0.4:        # the same module and parameters, or the same name and parameters
        cls = [c for c in cls if (c[0], c[1]) not in {x[:2] for x in ALIKE}][:1] + rnd.choice(PAIRS if fail else PAIRS[:2])
        rnd.shuffle(cls)
    names = rnd.choice([["db", "db2"], ["glass-0-1_vs_2", "glass"], ["x[1]", "x1"]])[:t["nd"]]
    seeds = [t["seed"] // 3 + 17 * i for i in range(t["nd"])]
    dss = [dataset(s, n) for s, n in zip(seeds, names)]
    vp = {"n_repeats": rnd.choice([1, 1, 2]), "n_splits": rnd.choice([2, 3]), "random_state": rnd.randrange(100)}
    if t["seed"] % 23 == 0:       # many folds
        vp.update(n_repeats=4, n_splits=4)
    return rnd, oss, cls, dss, seeds, vp, rnd.choice(SCALERS)


def base(t):
    return dict(seed=t["seed"], cfg=t["cfg"], err="")


def evaluate(t, rnd, oss, cls, dss, vp, scaler, path, parse=False, jobs=None):
    cfg = t["cfg"]
    kw = {}
    if cfg["timeout"] != "default":
        kw["timeout"] = {"none": None, "long": 300}[cfg["timeout"]]
    state = np.random.get_state()
    np.random.seed(t["seed"] % 2 ** 31)       # the order of the jobs
    try:
        return evaluate_oversamplers(datasets=[dict(d, data=d["data"].copy(), target=d["target"].copy()) for d in dss], oversamplers=copy.deepcopy(oss), classifiers=copy.deepcopy(cls),
                                     cache_path=path, validator_params=dict(vp), scaler=scaler, serialization=cfg["ser"], clean_up=cfg["clean"],
                                     n_jobs=jobs or cfg["jobs"], parse_results=parse, explicit_gc=cfg["gc"], verbosity=0, **kw)
    finally:
        np.random.set_state(state)


def warm_up(t, rnd, oss, cls, dss, vp, scaler, path):
    kind = t["cfg"]["store"]
    if kind == "warm part":
        evaluate(t, rnd, rnd.sample(oss, max(1, len(oss) - 1)), rnd.sample(cls, max(1, len(cls) - 1)), dss[:1], vp, scaler, path)
    elif kind == "warm jobs":
        evaluate(t, rnd, oss, cls, dss, vp, scaler, path, jobs={1: 2, 2: 1, 3: 1}[t["cfg"]["jobs"]])
    elif kind == "warm full":
        evaluate(t, rnd, oss, cls, dss, vp, scaler, path)
    elif kind == "warm clean":
        evaluate(t, rnd, oss[::-1], cls[::-1], dss, vp, scaler, path)
        for d in dss:
            do_clean_up(os.path.join(path, d["name"]), "all")


def ev_results(t, rnd, results, oss, cls, dss, seeds, vp, scaler):
    want = [[d["name"], f"{r}_{k}", f"o{a}", f"c{b}"] for d in dss for r in range(vp["n_repeats"]) for k in range(vp["n_splits"]) for a in range(len(oss)) for b in range(len(cls))]
    served, wrong = [], []
    for x in results:
        if isinstance(x, str):
            x = load_dict(x, t["cfg"]["ser"])
        fd = x["fold_descriptor"]
        o, c = combo_of(x, oss, cls)
        k = [fd["name"], f"{fd['repeat_idx']}_{fd['fold_idx']}", o, c]
        served.append(k)
        if k in want:
            i = [d["name"] for d in dss].index(k[0])
            p, y, sc, of, cf = reference(dss[i], seeds[i], vp, scaler, oss[int(o[1:])], cls[int(c[1:])])[k[1]]
            bad = [n for n, ok in (("y_pred", near(x["y_pred"], p)), ("y_test", near(x["y_test"], y)), ("scores", set(sc) == set(x["scores"]) and all(near(x["scores"][s], sc[s]) for s in sc)),
                                   ("oversampling_error", (x["oversampling_error"] is not None) == of), ("error", (x["error"] is not None) == cf)) if not ok]
            if bad:
                wrong.append([*k, *bad])
    return dict(op="results", want=want, served=served, wrong=wrong[:20])


def scale_of(xs):
    m = max(abs(x) for x in xs)
    s = 10000.0
    while m * s > 10000:
        s /= 10
    return s


def ev_table(t, pdf, oss, cls, dss, seeds, vp, scaler):
    from smote_variants.base import all_scores
    groups, rows, scales = [], [], {}
    for i, d in enumerate(dss):
        for a, o in enumerate(oss):
            for b, c in enumerate(cls):
                ref = reference(d, seeds[i], vp, scaler, o, c)
                sc = {}
                for s in all_scores:
                    xs = [np.nan if v[2][s] is None else float(v[2][s]) for v in ref.values()]
                    if np.isfinite(xs).all():
                        k = scales[d["name"], a, b, s] = scale_of(xs)
                        sc[s] = [int(round(x * k)) for x in xs]
                groups.append(dict(key=[d["name"], f"o{a}", f"c{b}"], scores=sc))
    for _, x in pdf.iterrows():
        o, c = combo_of(x, oss, cls)
        key = [x["dataset"], o, c]
        mean, std = {}, {}
        for s in all_scores:
            k = scales.get((x["dataset"], int(o[1:]) if o != "unknown" else -1, int(c[1:]) if c != "unknown" else -1, s))
            if k is not None:
                mean[s], std[s] = (int(round(v * k)) if np.isfinite(v) and abs(v * k) < 30000 else 30000 for v in (x[s + "_mean"], x[s + "_std"]))
        rows.append(dict(key=key, mean=mean, std=std))
    return dict(op="table", groups=groups, rows=rows)


def run_eval(t):
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    rnd, oss, cls, dss, seeds, vp, scaler = setting(t)
    tmp = tempfile.mkdtemp(prefix="verif_eval_")
    path = None if t["cfg"]["store"] == "memory" else os.path.join(tmp, "cache")
    evs = []
    try:
        if path is not None:
            warm_up(t, rnd, oss, cls, dss, vp, scaler, path)
        direct = rnd.random() < 0.4
        res = evaluate(t, rnd, oss, cls, dss, vp, scaler, path, parse=direct)
        if not direct:
            evs.append({**base(t), **ev_results(t, rnd, res, oss, cls, dss, seeds, vp, scaler)})
            res = do_parse_results(res, True, t["cfg"]["ser"])
        evs.append({**base(t), **ev_table(t, res, oss, cls, dss, seeds, vp, scaler)})
    except Exception:  # noqa
        evs.append({**base(t), "op": "results", "err": traceback.format_exc()[-1000:], "want": [], "served": [], "wrong": []})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return evs


# ----------------------------------------------------------------------------- C17
HIGHER = ["acc", "sens", "spec", "bacc", "gacc", "f1", "auc", "p_top20", "mcc", "informedness", "markedness", "ppv", "npv"]
LOWER = ["fpr", "fdr", "fnr", "brier", "log_loss"]


def mean_of(ref, score):
    xs = [v[2][score] for v in ref.values()]
    xs = [float(x) for x in xs if x is not None and np.isfinite(x)]
    return dict(defined=len(xs) > 0, mean=int(round(1e6 * np.mean(xs))) if xs else 0)


def run_select(t):
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    t = dict(t, nd=1)
    rnd, oss, cls, dss, seeds, vp, scaler = setting(t, fail=False)
    cls = cls if len(cls) > 1 else cls + [c for c in USABLE if c not in cls][:1]
    tmp = tempfile.mkdtemp(prefix="verif_sel_")
    path = None if t["cfg"]["store"] == "memory" else os.path.join(tmp, "cache")
    e = {**base(t), "op": "select", "score": "", "lower": False, "means": [], "chosen": 0, "configured": True, "usable": True}
    try:
        refs = [(a, b, reference(dss[0], seeds[0], vp, scaler, o, c)) for a, o in enumerate(oss) for b, c in enumerate(cls)]
        score = rnd.choice(HIGHER + LOWER)
        means = [mean_of(r, score) for _, _, r in refs]
        if not any(m["defined"] for m in means):
            score, means = "auc", [mean_of(r, "auc") for _, _, r in refs]
        if path is not None and t["cfg"]["store"] != "cold":
            warm_up(t, rnd, oss, cls, dss, vp, scaler, path)
        kw = {} if score == "auc" and rnd.random() < 0.5 else {"score": score}
        samp, clas = model_selection(dataset=dict(dss[0]), oversamplers=copy.deepcopy(oss), classifiers=copy.deepcopy(cls), cache_path=path, validator_params=dict(vp), scaler=scaler,
                                     serialization=t["cfg"]["ser"], clean_up=t["cfg"]["clean"], n_jobs=t["cfg"]["jobs"], **kw)
        e.update(score=score, lower=score in LOWER, means=means, combos=[[a, b] for a, b, _ in refs])
        so = [a for a, o in enumerate(oss) if type(samp).__name__ == o[1] and plain(samp.get_params()) == plain(stubs.make((o[0], o[1], copy.deepcopy(o[2]))).get_params())]
        co = [b for b, c in enumerate(cls) if type(clas).__name__ == c[1] and repr(clas.get_params()) == repr(stubs.make((c[0], c[1], copy.deepcopy(c[2]))).get_params())]
        e["configured"] = len(so) == 1 and len(co) == 1
        if e["configured"]:
            a, b = so[0], co[0]
            e["chosen"] = [[x, z] for x, z, _ in refs].index([a, b]) + 1
            X, y = dss[0]["data"], dss[0]["target"]
            ref_s = stubs.make((oss[a][0], oss[a][1], copy.deepcopy(oss[a][2])))
            ref_c = stubs.make((cls[b][0], cls[b][1], copy.deepcopy(cls[b][2])))
            Xs, ys = samp.sample(X.copy(), y.copy())
            Xr, yr = ref_s.sample(X.copy(), y.copy())
            e["usable"] = near(Xs, Xr) and near(ys, yr) and near(clas.fit(Xs, ys).predict_proba(samp.preprocessing_transform(X)), ref_c.fit(Xr, yr).predict_proba(ref_s.preprocessing_transform(X)))
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-1000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [e]


COLS = ["auc", "y_pred", "y_test", "oversampling_error", "oversampling_warning", "oversampling_runtime", "repeat_idx", "fold_idx", "split_idx", "runtime", "f1", "acc"]


def summary_event(t, raw_rows, pdf, columns, scores):
    """raw_rows: [(id, group label, fold)]; every column value tells its id"""
    groups = []
    for _, g in pdf.iterrows():
        cols = {}
        for c in columns or COLS[:6]:
            cols[c] = [t["ids"][c].get(json.dumps(plain(v)), 0) for v in g[c]]
        groups.append(dict(label=t["label"](g), cols=cols))
    return dict(op="summary", columns=columns or COLS[:6], rows=[dict(id=i, label=la, fold=f) for i, la, f in raw_rows], groups=groups)


def run_summary(t):
    """synthetic raw results (every value naming its row) in arbitrary order"""
    rnd = random.Random(t["seed"])
    specs = t["case"]["groups"]           # number of folds of each parameterisation
    names = ["db", "db1"]
    rows, raw, ids = [], [], {c: {} for c in COLS}
    labels = {}
    for gi, folds in enumerate(specs):
        o = [("SMOTE", {"proportion": 1.0}), ("SMOTE", {"proportion": 0.5}), ("ADASYN", {"proportion": 1.0}),
             ("SMOTE", {"proportion": 1.0, "ss_params": {"within_simplex_sampling": "random", "n_dim": 2}}),
             ("SMOTE", {"proportion": 1.0, "ss_params": {"within_simplex_sampling": "deterministic", "n_dim": 2}})][(t["case"]["shape"][gi]) % 5]
        c = [("sklearn.tree", "DecisionTreeClassifier", {"max_depth": 3}), ("sklearn.tree", "DecisionTreeClassifier", {"max_depth": 4}), ("other.tree", "DecisionTreeClassifier", {"max_depth": 3})][
            (t["case"]["shape"][gi] // 5) % 3]
        name = names[(t["case"]["shape"][gi] // 15) % 2]
        label = json.dumps([name, o, c])
        if label in labels:
            continue
        labels[label] = gi
        for f in range(folds):
            i = len(rows) + 1
            sc = {"auc": i / 1000, "f1": i / 1000 + 0.5, "acc": 1 - i / 1000}
            rows.append({"fold_descriptor": {"name": name, "split_idx": f, "repeat_idx": f // 2, "fold_idx": f % 2 if t["case"]["repeats"] else f}, "oversampler": o[0], "oversampler_params": dict(o[1]),
                         "oversampler_module": "smote_variants", "oversampling_error": f"e{i}", "oversampling_warning": f"w{i}", "oversampling_runtime": i * 1.5, "oversampling_filname": f"n{i}",
                         "runtime": i + 0.25, "y_pred": [i / 7, 0.5], "y_test": [i, 1], "scores": sc, "classifier": c[1], "classifier_params": dict(c[2]), "classifier_module": c[0],
                         "error": None, "warning": "[]"})
            vals = {"auc": sc["auc"], "f1": sc["f1"], "acc": sc["acc"], "y_pred": [i / 7, 0.5], "y_test": [i, 1], "oversampling_error": f"e{i}", "oversampling_warning": f"w{i}",
                    "oversampling_runtime": i * 1.5, "runtime": i + 0.25}
            for k, v in vals.items():
                ids[k][json.dumps(v)] = i
            raw.append((i, label, f % 2 if t["case"]["repeats"] else f))
    order = list(range(len(rows)))
    rnd.shuffle(order)
    pdf = pd.DataFrame([rows[j] for j in order])
    scores = rnd.choice([None, ["auc"], ["auc", "f1", "acc"]])
    cols = None if scores is None else ["auc", "y_test"] + rnd.sample([c for c in ("y_pred", "oversampling_error", "runtime") + (("f1", "acc") if len(scores) > 1 else ())], 2)
    if t["seed"] % 3 == 0:
        pdf.index = [rnd.randrange(1000) for _ in order]       # index as left by a concatenation
    e = {**base(dict(t, cfg=t["case"])), "op": "summary", "columns": [], "rows": [], "groups": []}
    try:
        out = create_summary(pdf, scores, cols)

        def label(g):
            return json.dumps([g["db_name"], [g["oversampler"], plain(g["oversampler_params"])], [g["classifier_module"], g["classifier"], plain(g["classifier_params"])]])
        e.update(summary_event({"ids": ids, "label": label}, raw, out, cols, scores))
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-1000:]
    return [e]


def run_summary_real(t):
    """evaluate into a cache, read it back and summarise"""
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
    rnd, oss, cls, dss, seeds, vp, scaler = setting(t)
    tmp = tempfile.mkdtemp(prefix="verif_sum_")
    path = os.path.join(tmp, "cache")
    evs = []
    try:
        evaluate(t, rnd, oss, cls, dss, vp, scaler, path)
        found = datasets_in_cache(path)
        evs.append({**base(t), "op": "cache", "want": sorted(d["name"] for d in dss), "found": sorted(found)})
        data = [load_dataset_data(found[n]) for n in sorted(found)]
        raw_all, ids = [], {c: {} for c in COLS}
        pdf = pd.concat(data) if rnd.random() < 0.7 else pd.concat(data, ignore_index=True)
        i = 0
        frames = []
        for _, x in pdf.iterrows():
            i += 1
            o, c = combo_of(x, oss, cls)
            raw_all.append((i, json.dumps([x["fold_descriptor"]["name"], o, c]), x["fold_descriptor"]["fold_idx"]))
            x = x.copy()
            x["oversampling_error"] = f"e{i}"       # marks to follow the rows
            x["oversampling_runtime"] = i * 1.5
            ids["oversampling_error"][json.dumps(f"e{i}")] = i
            ids["oversampling_runtime"][json.dumps(i * 1.5)] = i
            frames.append(x)
        out = create_summary(pd.DataFrame(frames), ["auc"], ["oversampling_error", "oversampling_runtime"])

        def label(g):
            return json.dumps([g["db_name"], *combo_of(g, oss, cls)])
        n = len(dss) * vp["n_repeats"] * vp["n_splits"] * len(oss) * len(cls)
        evs.append({**base(t), "op": "cache", "want": [str(n)], "found": [str(len(pdf))]})
        evs.append({**base(t), **summary_event({"ids": ids, "label": label}, raw_all, out, ["oversampling_error", "oversampling_runtime"], None)})
    except Exception:  # noqa
        evs.append({**base(t), "op": "summary", "columns": [], "rows": [], "groups": [], "err": traceback.format_exc()[-1000:]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return evs

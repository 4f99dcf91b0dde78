"""Driver for C21: life cycles of OversamplingClassifier against explicit pipelines, the MLP wrapper."""
import copy
import logging
import random
import traceback
import warnings

import numpy as np
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, StratifiedKFold, cross_val_predict
from sklearn.neural_network import MLPClassifier
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler

import env

sv = env.load_sv()
import stubs  # noqa: E402
from smote_variants.classifiers import MLPClassifierWrapper, OversamplingClassifier  # noqa: E402

warnings.filterwarnings("ignore")
logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
S = "smote_variants"
OSS = [(S, "SMOTE", {"random_state": 5, "n_neighbors": 3}), (S, "SMOTE", {"random_state": 0, "proportion": 0.4}), (S, "NoSMOTE", {}), (S, "Borderline_SMOTE1", {"random_state": 2}),
       (S, "ISOMAP_Hybrid", {"n_components": 2, "n_neighbors": 4, "random_state": 5}), (S, "SMOTE_TomekLinks", {"random_state": 3}), (S, "polynom_fit_SMOTE_star", {"random_state": 3}),
       (S, "ADASYN", {"random_state": 1}), (S, "distance_SMOTE", {"proportion": 1.5, "random_state": 4}), (S, "CCR", {"random_state": 4}), (S, "ROSE", {"random_state": 8})]
MULTI = [(S, "MulticlassOversampling", {"oversampler": "SMOTE", "oversampler_params": {"random_state": 5}}),
         (S, "MulticlassOversampling", {"oversampler": "distance_SMOTE", "oversampler_params": {"random_state": 7, "n_neighbors": 3}, "strategy": "equalize_1_vs_many"}),
         (S, "NoSMOTE", {})]
CLS = [("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 1}), ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 7}), ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 5}),
       ("sklearn.linear_model", "LogisticRegression", {"C": 0.3}), ("sklearn.naive_bayes", "GaussianNB", {}), ("sklearn.discriminant_analysis", "LinearDiscriminantAnalysis", {}),
       ("sklearn.svm", "SVC", {"probability": True, "random_state": 3})]


def make(spec):
    return stubs.make(copy.deepcopy(spec))


def dataset(r, multi):
    d = 3
    if multi:
        sizes = [24, 12, 8]
        labels = [[0, 1, 2], [5, -1, 3], [10, 20, 30]][r.randint(3)]
    else:
        sizes = [int(r.randint(20, 35)), int(r.randint(9, 15))]
        labels = [[0, 1], [1, 0], [-1, 1], [7, 2], [3, 30]][r.randint(5)]
    X = np.vstack([r.normal(size=(n, d)) + i * 1.2 for i, n in enumerate(sizes)])
    y = np.hstack([[la] * n for la, n in zip(labels, sizes)])
    p = r.permutation(len(y))
    return X[p], y[p]


def same(a, b):
    return a is not None and b is not None and a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))


def explicit(o, c, X, y, Q, sampler=None):
    s = sampler if sampler is not None else make(o)
    Xs, ys = s.sample(X.copy(), y.copy())
    cl = make(c).fit(Xs, ys)
    Qt = s.preprocessing_transform(Q.copy()) if hasattr(s, "preprocessing_transform") else Q.copy()
    return cl.predict(Qt), cl.predict_proba(Qt), cl, s


def run_life(t):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    rnd = random.Random(t["seed"])
    multi = rnd.random() < 0.25
    oss = dict(zip(("o1", "o2"), rnd.sample(MULTI if multi else OSS, 2)))
    cls = dict(zip(("c1", "c2"), rnd.sample(CLS, 2)))
    dss = {"d1": dataset(r, multi)}
    lab = np.unique(dss["d1"][1])
    X2, y2 = dataset(r, multi)
    if rnd.random() < 0.5:
        y2 = lab[np.searchsorted(np.unique(y2), y2)]
    dss["d2"] = X2, y2
    Q = r.normal(size=(15, 3)) * 1.5 + 0.5
    e = dict(op="life cycle", seed=t["seed"], acts=t["acts"], err="", after=[], what=[str(oss), str(cls)])
    try:
        ref = {(o, c, d): explicit(oss[o], cls[c], *dss[d], Q)[:2] for o in oss for c in cls for d in dss}
        w = OversamplingClassifier(copy.deepcopy(oss["o1"]), copy.deepcopy(cls["c1"]))
        cur = ["o1", "c1"]
        sampler, hist = make(oss["o1"]), None
        last = "d1"
        for a in t["acts"]:
            if a["op"] == "fit":
                X, y = dss[a["d"]]
                last = a["d"]
                w = w.fit(X.copy(), y.copy())
                hist = explicit(None, cls[cur[1]], X, y, Q, sampler)[:2]
            elif a["op"] == "clone":
                w = clone(w)
                sampler, hist = make(oss[cur[0]]), None
            else:
                kw = {}
                if a["o"]:
                    kw["oversampler"] = copy.deepcopy(oss[a["o"]])
                    cur[0] = a["o"]
                if a["c"]:
                    kw["classifier"] = copy.deepcopy(cls[a["c"]])
                    cur[1] = a["c"]
                w = w.set_params(**kw)
                sampler, hist = make(oss[cur[0]]), None
            e["after"].append(observe(w, oss, cls, Q, ref, hist, np.unique(dss[last][1])))
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-900:]
    return [e]


def observe(w, oss, cls, Q, ref, hist, labels):
    p = w.get_params()
    o = [k for k in oss if oss[k] == p["oversampler"]]
    c = [k for k in cls if cls[k] == p["classifier"]]
    a = b = None
    classes = repeatable = False
    state = np.random.get_state()
    try:
        q = Q.copy()
        a, b = w.predict(q), w.predict_proba(q)
        repeatable = same(w.predict(q), a) and same(w.predict_proba(q), b) and same(q, Q) and same(w.predict_proba(Q[3:4].copy()), b[3:4])
        classes = bool(np.array_equal(w.classes_, labels))
    except Exception:  # noqa  (not fitted)
        pass
    finally:
        np.random.set_state(state)

    def rec(k):
        return dict(o=k[0], c=k[1], d=k[2])
    return dict(o=o[0] if len(o) == 1 else "?", c=c[0] if len(c) == 1 else "?", predicts=[rec(k) for k in sorted(ref) if same(ref[k][0], a)], probabilities=[rec(k) for k in sorted(ref) if same(ref[k][1], b)],
                same_history=hist is not None and same(hist[0], a), same_history_proba=hist is not None and same(hist[1], b), classes=classes, repeatable=repeatable)


def run_tool(t):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    rnd = random.Random(t["seed"])
    multi = rnd.random() < 0.25
    oss, cls = rnd.sample(MULTI if multi else OSS, 3), rnd.sample(CLS, 2)
    X, y = dataset(r, multi)
    X = X * 10 ** r.uniform(-1, 1, size=3)
    Q = r.normal(size=(12, 3))
    e = dict(op="tool", kind=t["kind"], seed=t["seed"], err="", clause="", holds=True, what=[str(oss), str(cls)])
    o, c = oss[0], cls[0]

    def wrap(o=o, c=c):
        return OversamplingClassifier(copy.deepcopy(o), copy.deepcopy(c))
    try:
        if t["kind"] == "pipeline":
            e["clause"] = "a pipeline predicts as its explicit steps"
            s = StandardScaler().fit(X)
            a, b, _, _ = explicit(o, c, s.transform(X), y, s.transform(Q))
            m = Pipeline([("scale", StandardScaler()), ("clf", wrap())]).fit(X, y)
            e["holds"] = same(m.predict(Q), a) and same(m.predict_proba(Q), b) and same(m.classes_, np.unique(y))
        elif t["kind"] == "cross validation":
            e["clause"] = "cross validation predicts as the explicit pipelines"
            cv = StratifiedKFold(3, shuffle=True, random_state=int(r.randint(100)))
            a = cross_val_predict(wrap(), X, y, cv=cv, method="predict_proba")
            b = np.zeros(a.shape)
            for tr, te in cv.split(X, y):
                b[te] = explicit(o, c, X[tr], y[tr], X[te])[1]
            e["holds"] = same(a, b)
        elif t["kind"] == "grid search":
            e["clause"] = "grid search scores the explicit pipelines"
            cv = StratifiedKFold(2, shuffle=True, random_state=int(r.randint(100)))
            m = GridSearchCV(Pipeline([("scale", StandardScaler()), ("clf", wrap())]), {"clf__oversampler": copy.deepcopy(oss), "clf__classifier": copy.deepcopy(cls)}, cv=cv, scoring="accuracy").fit(X, y)
            want = []
            for p in m.cv_results_["params"]:
                xs = []
                for tr, te in cv.split(X, y):
                    s = StandardScaler().fit(X[tr])
                    xs.append(np.mean(explicit(p["clf__oversampler"], p["clf__classifier"], s.transform(X[tr]), y[tr], s.transform(X[te]))[0] == y[te]))
                want.append(np.mean(xs))
            s = StandardScaler().fit(X)
            b = explicit(m.best_params_["clf__oversampler"], m.best_params_["clf__classifier"], s.transform(X), y, s.transform(Q))
            e["holds"] = len(want) == 6 and same(m.cv_results_["mean_test_score"], np.array(want)) and same(m.predict_proba(Q), b[1])
        else:
            e["clause"] = "the score is the accuracy of the predictions"
            m = wrap().fit(X, y)
            yq = r.choice(np.unique(y), size=len(Q))
            e["holds"] = bool(abs(m.score(Q, yq) - np.mean(explicit(o, c, X, y, Q)[0] == yq)) < 1e-12)
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-900:]
    return [e]


def run_mlp(t):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    dim = int(r.choice([1, 2, 3, 4, 5, 8, 9, 10, 12]))
    fr = [dict(sqrt=True, num=0, den=1), dict(sqrt=False, num=1, den=2), dict(sqrt=False, num=1, den=10), dict(sqrt=False, num=33, den=100), dict(sqrt=False, num=1, den=1), dict(sqrt=False, num=3, den=2),
          dict(sqrt=False, num=2, den=1)][r.randint(7)]
    frac = "sqrt" if fr["sqrt"] else fr["num"] // fr["den"] if fr["den"] == 1 and r.rand() < 0.5 else fr["num"] / fr["den"]
    kw = dict(max_iter=int(r.choice([5, 12, 40])), activation=str(r.choice(["relu", "tanh", "logistic", "identity"])), alpha=float(r.choice([1e-4, 0.5, 3.0])),
              learning_rate=str(r.choice(["adaptive", "constant", "invscaling"])), random_state=int(r.randint(100)) if r.rand() < 0.75 else 0)
    given = {k: v for k, v in kw.items() if k in ("max_iter", "random_state") or r.rand() < 0.6}
    full = {**dict(activation="relu", alpha=0.0001, learning_rate="adaptive"), **given}
    if not (frac == "sqrt" and r.rand() < 0.5):
        given["hidden_layer_fraction"] = frac
    e = dict(op="mlp", seed=t["seed"], err="", dim=dim, frac=fr, predict=[], proba=[], copied=True, independent=True, params=True)

    def data():
        X = r.normal(size=(30, dim))
        return X, (X[:, 0] + 0.3 * r.normal(size=30) > 0.3) * int(r.choice([1, 2])) + int(r.choice([0, 5]))
    try:
        (X, y), (X2, y2) = data(), data()
        Q = r.normal(size=(20, dim))
        w = MLPClassifierWrapper(**given)
        if t["seed"] % 3 == 0:
            w.fit(X2, y2)          # refitting forgets
        w = w.fit(X, y)
        if t["seed"] % 2:
            before = w.predict_proba(Q)
            v = w.copy()
            v.fit(X2, y2)
            e["independent"] = same(w.predict_proba(Q), before)
            e["copied"] = v.get_params() == w.get_params()
            v = v.copy().fit(X, y)
            e["copied"] = e["copied"] and same(v.predict_proba(Q), before)
        p = w.get_params()
        e["params"] = p == {**full, "hidden_layer_fraction": frac} and same(MLPClassifierWrapper(**p).fit(X, y).predict_proba(Q), w.predict_proba(Q))
        for h in range(1, 2 * dim + 2):
            m = MLPClassifier(hidden_layer_sizes=(h,), **full).fit(X, y)
            if same(m.predict(Q), w.predict(Q)):
                e["predict"].append(h)
            if same(m.predict_proba(Q), w.predict_proba(Q)):
                e["proba"].append(h)
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-900:]
    return [e]

"""Driver of the noise filters on integer points in generic position."""
import numpy as np

import env

sv = env.load_sv()
FILTERS = {c.__name__: c for c in (sv.noise_removal.TomekLinkRemoval, sv.noise_removal.EditedNearestNeighbors,
                                   sv.noise_removal.NeighborhoodCleaningRule, sv.noise_removal.CondensedNearestNeighbors,
                                   sv.noise_removal.OneSidedSelection, sv.noise_removal.CNNTomekLinks)}
NAMEOPT = [("TomekLinkRemoval", "remove_majority"), ("TomekLinkRemoval", "remove_both"), ("EditedNearestNeighbors", "both"),
           ("EditedNearestNeighbors", "min"), ("EditedNearestNeighbors", "maj"), ("NeighborhoodCleaningRule", "-"),
           ("CondensedNearestNeighbors", "-"), ("OneSidedSelection", "-"), ("CNNTomekLinks", "-")]
METRICS = {"euclidean": lambda a, b: int(((a - b) ** 2).sum()), "manhattan": lambda a, b: int(np.abs(a - b).sum()),
           "chebyshev": lambda a, b: int(np.abs(a - b).max())}


def generic(X, metric):
    f = METRICS[metric]
    for i in range(len(X)):
        ds = [f(X[i], X[j]) for j in range(len(X)) if j != i]
        if len(set(ds)) != len(ds) or 0 in ds:
            return False
    return True


def points(r, n, d, metric="euclidean", hi=1500):
    """n integer points in generic position, added one by one"""
    f = METRICS[metric]
    X, dists = [], []
    cl = r.randint(0, hi, size=(max(1, n // 6), d))
    while len(X) < n:
        p = cl[r.randint(len(cl))] + np.round(r.normal(size=d) * hi / 5).astype(int)
        ds = [f(p, q) for q in X]
        if 0 in ds or len(set(ds)) != len(ds) or any(v in s for v, s in zip(ds, dists)):
            continue
        for s, v in zip(dists, ds):
            s.add(v)
        X.append(p)
        dists.append(set(ds))
    return np.array(X)


def tomek_majority(X, y, metric):
    """number of classes left by the first stage (harness only, to stay in scope)"""
    vals, cnt = np.unique(y, return_counts=True)
    maj = vals[1] if cnt[0] < cnt[1] else vals[0]
    f = METRICS[metric]
    n = len(X)
    nn = [min((j for j in range(n) if j != i), key=lambda j: f(X[i], X[j])) for i in range(n)]
    keep = [i for i in range(n) if not (y[i] == maj and nn[nn[i]] == i and y[nn[i]] != y[i])]
    return len(set(y[keep])) == 2


def observe(name, opt, X, y, metric="euclidean", obj=None):
    kw = {}
    if name == "TomekLinkRemoval":
        kw["strategy"] = opt
    if name == "EditedNearestNeighbors":
        kw["remove"] = opt
    if metric != "euclidean":
        kw["nn_params"] = {"metric": metric}
    ev = {"op": "filter", "name": name, "opt": opt, "metric": metric, "X": np.asarray(X).astype(int).tolist(), "y": [int(v) for v in y], "err": ""}
    Xi, yi = X.copy(), y.copy()
    try:
        f = obj or FILTERS[name](**kw)
        Xo, yo = f.remove_noise(Xi, yi)
        idx = {tuple(row): i + 1 for i, row in enumerate(np.asarray(X, dtype=float).tolist())}
        ev["keep"] = [idx.get(tuple(row), 0) for row in np.asarray(Xo, dtype=float).tolist()]
        ev["yout"] = [int(v) for v in yo]
    except Exception as e:  # noqa
        ev.update(err=type(e).__name__ + ": " + str(e)[:80], keep=[], yout=[])
    ev["same"] = bool(np.array_equal(Xi, X) and np.array_equal(yi, y))
    return ev


LABELS = [(0, 1), (1, 0), (-1, 1), (1, -1), (5, 7), (7, 5), (3, 100)]


def random_case(t):
    """all filters on one random dataset"""
    r = np.random.RandomState(t["seed"])
    n = int(r.choice([2, 3, 4, 5, 6, 8, 12, 18, 24]))
    d = int(r.choice([1, 2, 3, 4]))
    metric = str(r.choice(["euclidean", "euclidean", "euclidean", "manhattan"]))
    X = points(r, n, d, metric, hi=1500 if d > 1 else 4000)
    a, b = LABELS[r.randint(len(LABELS))]
    p = r.uniform(0.15, 0.5)
    y = np.where(r.rand(n) < p, b, a)
    if r.rand() < 0.5:    # classes follow the geometry, with noise
        y = np.where(X[:, 0] > np.quantile(X[:, 0], 1 - p), b, a)
        fl = r.rand(n) < 0.15
        y = np.where(fl, a + b - y, y)
    if len(set(y.tolist())) < 2:
        y[r.randint(n)] = a + b - y[0]
    Xin = X.astype(float) if r.rand() < 0.8 else X
    if r.rand() < 0.2:
        Xin = np.asfortranarray(Xin)
    out = []
    for name, opt in NAMEOPT:
        if name == "NeighborhoodCleaningRule" and n < 4:
            continue
        m = metric if name in ("TomekLinkRemoval", "EditedNearestNeighbors", "NeighborhoodCleaningRule") else "euclidean"
        if m != metric and not generic(X, m):
            continue
        if name == "OneSidedSelection" and not tomek_majority(X, y, m):
            continue
        out.append(observe(name, opt, Xin, y, m))
    return out


def replay(t):
    """replay of a TLC generated labeling"""
    out = []
    X = np.array(t["X"], dtype=float)
    y = np.array(t["y"])
    a, b = t["labels"]
    yy = np.where(y == 1, b, a)
    for c in t["cases"]:
        if c["keep"] == [0]:
            continue
        e = observe(c["name"], c["opt"], X, yy)
        e["expected"] = c["keep"]
        out.append(e)
    return out

"""Driver for C23: composite samplers, their parts called directly."""
import logging
import warnings
from fractions import Fraction

import numpy as np

import env

sv = env.load_sv()
logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
warnings.filterwarnings("ignore")
LABELS = [(0, 1), (0, 1), (1, 0), (-1, 1), (1, -1), (5, 7), (7, 5)]
PROPS = [0.0, 0.25, 0.5, 0.75, 1.0, 1.0, 1.5, 2.0]


def ratio(p):
    f = Fraction(p)
    return [f.numerator, f.denominator]


def dists(X, metric="euclidean"):
    d = np.abs(X[:, None, :] - X[None, :, :])
    return d.sum(axis=2) if metric == "manhattan" else np.sqrt((d ** 2).sum(axis=2))


def ranks(D):
    """ranks of the distances, None unless clearly distinct from each point"""
    n = len(D)
    off = ~np.eye(n, dtype=bool)
    scale = D.max() if n > 1 else 1
    if scale == 0:
        return None
    for i in range(n):
        v = np.sort(D[i][off[i]])
        if len(v) and (v[0] < 1e-7 * scale or np.any(np.diff(v) < 1e-7 * scale)):
            return None
    out = np.zeros((n, n), dtype=int)
    iu = np.triu_indices(n, 1)
    o = np.argsort(D[iu], kind="stable")
    r = np.empty(len(o), dtype=int)
    r[o] = np.arange(1, len(o) + 1)
    out[iu] = r
    return (out + out.T).tolist()


def index_of(X):
    ix = {tuple(v): i + 1 for i, v in enumerate(X.tolist())}
    return ix if len(ix) == len(X) else None


def two_class(r, nmaj, nmin, d, overlap):
    a, b = LABELS[r.randint(len(LABELS))]
    X = np.vstack([r.normal(size=(nmaj, d)), r.normal(size=(nmin, d)) + overlap])
    y = np.array([a] * nmaj + [b] * nmin)
    o = r.permutation(len(y)) if r.rand() < 0.8 else np.arange(len(y))
    return X[o], y[o], a, b


def sampled(cls, X, y, **kw):
    """(output, error)"""
    try:
        Xo, yo = cls(**kw).sample(X.copy(), y.copy())
        return (np.asarray(Xo, dtype=float), np.asarray(yo)), ""
    except Exception as e:  # noqa
        return (np.zeros((0, X.shape[1])), np.zeros(0, dtype=int)), type(e).__name__ + ": " + str(e)[:90]


def same(Xo, yo, X, y):
    return bool(np.array_equal(Xo, X) and np.array_equal(yo, y))


def common(r):
    kw = {"proportion": float(r.choice(PROPS)), "n_neighbors": int(r.choice([1, 2, 3, 5, 7])), "random_state": int(r.randint(1000)) if r.rand() < 0.85 else 0, "n_jobs": 1}
    if r.rand() < 0.4:
        kw["ss_params"] = {"n_dim": int(r.choice([2, 2, 3])), "simplex_sampling": str(r.choice(["random", "random", "deterministic"])), "within_simplex_sampling": "random"}
    metric = "euclidean"
    if r.rand() < 0.25:
        metric = "manhattan"
        kw["nn_params"] = {"metric": "manhattan"}
    return kw, metric


def combine(r, ev):
    name = str(r.choice(["SMOTE_TomekLinks", "SMOTE_ENN"]))
    nmin = int(r.randint(2, 9))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 14)), nmin, int(r.choice([1, 2, 2, 3])), float(r.choice([0, 0, 0.5, 1.5, 4])))
    if r.rand() < 0.25:    # few members of interleaved classes, most are removed
        m = int(r.randint(2, 5))
        X = np.sort(r.normal(size=2 * m + 1))[:, None]
        y = np.array([a, b] * m + [a])
    kw, metric = common(r)
    (Xs, ys), err = sampled(sv.SMOTE, X, y, **kw)
    if err:
        return None
    D, ix = ranks(dists(Xs, metric)), index_of(Xs)
    if D is None or ix is None or len(Xs) > 44 or len(Xs) < 4:
        return None
    (Xo, yo), err = sampled(getattr(sv, name), X, y, **kw)
    ev.update(name=name, y=ys.tolist(), D=D, n=len(X), err=err, untouched=same(Xo, yo, X, y), keep=[ix.get(tuple(v), 0) for v in Xo.tolist()], yout=yo.tolist(), params=str(kw))
    return ev


def graph(r, ev):
    nmin = int(r.randint(3, 14))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 25)), nmin, int(r.choice([2, 2, 3])), float(r.choice([0, 0.5, 1, 1.5, 2.5])))
    kw, metric = common(r)
    if metric == "manhattan":
        kw.pop("nn_params")
    q = int(abs(np.sum(y == a) - np.sum(y == b)) * kw["proportion"])
    D = dists(X)
    if ranks(D) is None or q == 0:
        return None
    mins = np.where(y == b)[0]
    near = [y[np.argsort(D[i])].tolist() for i in mins]
    (Xo, yo), err = sampled(sv.SL_graph_SMOTE, X, y, **kw)
    names, equal = ["Safe_Level_SMOTE", "Borderline_SMOTE1"], []
    outs = [sampled(getattr(sv, n), X, y, **kw) for n in names]
    for (Xd, yd), e in outs:
        equal.append(bool(not e and np.array_equal(Xd, Xo) and np.array_equal(yd, yo)))
    if err and all(e for _, e in outs):
        return None
    ev.update(near=near, k=min(len(X), kw["n_neighbors"]), y=y.tolist(), delegates=names, equal=equal, err=err, untouched=same(Xo, yo, X, y), params=str(kw))
    return ev


def integers(r, hi=40):
    nmin = int(r.randint(2, 8))
    d = int(r.choice([1, 2, 3]))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 22)), nmin, d, 0.5)
    X = np.round(X * hi / 4)
    return X, y, a, b


def scaled(P, f):
    G = P * f
    R = np.round(G)
    return R.astype(int).tolist(), bool(np.all(np.abs(G - R) < 1e-5))


def polynomial(r, ev):
    topology = str(r.choice(["star", "bus"]))
    X, y, a, b = integers(r)
    p = float(r.choice(PROPS))
    kw = {"proportion": p, "random_state": int(r.randint(100))}
    (Xo, yo), err = sampled(getattr(sv, "polynom_fit_SMOTE_" + topology), X, y, **kw)
    M = X[y == b]
    q = int(abs(np.sum(y == a) - np.sum(y == b)) * p)
    k = max(1, int(np.rint(q / len(M))))
    got, exact = scaled(Xo[len(X):], len(M) * (k + 1))
    ev.update(topology=topology, X=M.astype(int).tolist(), y=y.tolist(), p=ratio(p), got=got, exact=exact, prefix=bool(np.array_equal(Xo[:len(X)], X)),
              yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y), k=k)
    return ev


def mesh(r, ev):
    X, y, a, b = integers(r)
    p = float(r.choice([0.0, 0.25, 0.5, 1.0]))
    while abs(np.sum(y == a) - np.sum(y == b)) * p > 8:
        p /= 2
    (Xo, yo), err = sampled(sv.polynom_fit_SMOTE_mesh, X, y, proportion=p, random_state=int(r.randint(100)))
    got, _ = scaled(Xo[len(X):], 10000)
    ev.update(X=X[y == b].astype(int).tolist(), y=y.tolist(), p=ratio(p), got=got, prefix=bool(np.array_equal(Xo[:len(X)], X)), yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y))
    return ev


def curve(r, ev):
    X, y, a, b = integers(r)
    p = float(r.choice(PROPS))
    order = int(r.choice([1, 2, 3]))
    kw = {"proportion": p, "random_state": int(r.randint(100))}
    M = X[y == b]
    if len(M) <= order or len(set(M.mean(axis=1).tolist())) < len(M):
        return None
    (Xo, yo), err = sampled(sv.polynom_fit_SMOTE_poly, X, y, order=order, **kw)
    S = M[M.mean(axis=1).argsort()]
    t = np.linspace(0, len(M), 4001)
    V = np.vstack([np.polyval(np.polyfit(np.arange(len(M)), S[:, c], order), t) for c in range(M.shape[1])])
    slack = 5 + np.abs(np.diff(V, axis=1)).max(axis=1) * 1000
    got, _ = scaled(Xo[len(X):], 1000)
    ev.update(y=y.tolist(), p=ratio(p), got=got, lo=(np.floor(V.min(axis=1) * 1000 - slack)).astype(int).tolist(), hi=(np.ceil(V.max(axis=1) * 1000 + slack)).astype(int).tolist(),
              prefix=bool(np.array_equal(Xo[:len(X)], X)), yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y))
    return ev


def nothing(r, ev):
    X, y, a, b = integers(r)
    option = str(r.choice(["none", "none", "raise_value_error", "raise_runtime_error"]))
    kw = {} if option == "none" else {option: True}
    Xi, yi = X.copy(), y.copy()
    try:
        Xo, yo = sv.NoSMOTE(random_state=int(r.randint(9)), **kw).sample(Xi, yi)
        ev.update(raised="", untouched=same(Xo, yo, X, y), same=bool(same(Xo, yo, X, y) and np.array_equal(Xi, X)), copied=bool(not np.shares_memory(Xo, Xi) and not np.shares_memory(yo, yi)))
    except Exception as e:  # noqa
        ev.update(raised=type(e).__name__, untouched=False, same=False, copied=False)
    ev.update(option=option, y=y.tolist())
    return ev


class Voter:
    """A scripted classifier: errs on given rows with given probabilities, records its calls."""
    script = None

    def __init__(self, **_kw):
        pass

    def fit(self, X, y):
        Voter.script["train"] = [Voter.script["ix"].get(tuple(v), 0) for v in np.asarray(X).tolist()]
        return self

    def predict(self, X):
        s = Voter.script
        if len(s["calls"]) > 400:
            raise RuntimeError("no end")
        rows = [s["ix"].get(tuple(v), 0) for v in np.asarray(X).tolist()]
        rate = s["rate"] if len(s["calls"]) < s["until"] else s["rate"] * 0
        wrong = [int(s["r"].rand() < rate[i - 1]) for i in rows]
        s["calls"].append({"rows": rows, "train": s["train"], "wrong": wrong})
        own = s["y"][np.array(rows) - 1]
        return np.where(np.array(wrong) == 1, s["a"] + s["b"] - own, own)


def ipf(r, ev):
    nmin = int(r.randint(2, 8))
    X, y, a, b = two_class(r, nmin + int(r.randint(0, 10)), nmin, 2, 1.0)
    kw, _ = common(r)
    (Xs, ys), err = sampled(sv.SMOTE, X, y, **kw)
    ix = index_of(Xs)
    if err or ix is None:
        return None
    own = {"n_folds": int(r.choice([2, 3, 4, 5, 9])), "k": int(r.choice([1, 2, 3])), "p": float(r.choice([0.0, 0.0078125, 0.125, 0.5])), "voting": str(r.choice(["majority", "consensus"]))}
    keep = r.rand(len(ys)) < 0.6
    for v in (a, b):
        keep[np.where(ys == v)[0][:own["n_folds"] + 1]] = True    # members of all classes remain
    rate = np.where(keep, r.choice([0, 0.3, 0.3]) if own["voting"] == "consensus" else 0.0, r.choice([0.5, 0.9, 1.0, 1.0], size=len(ys)))
    if own["voting"] == "consensus":
        rate[np.where(ys == a)[0][:own["n_folds"] + 1]] = 0
        rate[np.where(ys == b)[0][:own["n_folds"] + 1]] = 0
    Voter.script = {"ix": ix, "y": ys, "a": a, "b": b, "rate": rate, "calls": [], "until": int(r.choice([6, 20, 40])), "r": np.random.RandomState(r.randint(10 ** 6)), "train": []}
    (Xo, yo), err = sampled(sv.SMOTE_IPF, X, y, classifier=("drv_composite", "Voter", {}), **kw, **own)
    ev.update(y=ys.tolist(), n=len(X), p=ratio(kw["proportion"]), folds=own["n_folds"], K=own["k"], share=ratio(own["p"]), voting=own["voting"], calls=Voter.script["calls"],
              out=[ix.get(tuple(v), 0) for v in Xo.tolist()], yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y), params=str(kw))
    return ev


def synthetic(cls, X, y, kw):
    (Xs, ys), err = sampled(cls, X, y, **kw)
    new = Xs[len(X):]
    return new, index_of(new), err


def positions(Xo, n, ix):
    return [ix.get(tuple(v), 0) for v in Xo[n:].tolist()]


def rsb(r, ev):
    nmin = int(r.randint(3, 10))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 20)), nmin, int(r.choice([1, 2, 3])), float(r.choice([0, 1, 2, 4, 8])))
    kw, _ = common(r)
    kw.pop("nn_params", None)
    new, ix, err = synthetic(sv.SMOTE, X, y, kw)
    if err or ix is None:
        return None
    level = []
    if len(new):
        span = new.max(axis=0) - new.min(axis=0)
        if np.any(span == 0):
            return None
        M = X[y == a]
        sim = 1 - np.abs(new[:, None, :] / span - M[None, :, :] / span).sum(axis=2) / X.shape[1]
        top = sim.max(axis=1)
        steps = 0.4 + 0.05 * np.arange(11)
        if np.any(np.abs(top[:, None] - steps[None, :]) < 1e-9) or np.any((top > 0.85) & (top <= 0.9)):
            return None
        level = [int(np.argmax(t <= steps)) if t <= steps[-1] else 99 for t in top]
    (Xo, yo), err = sampled(sv.SMOTE_RSB, X, y, **kw)
    ev.update(y=y.tolist(), level=level, out=positions(Xo, len(X), ix), prefix=bool(np.array_equal(Xo[:len(X)], X)), yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y), params=str(kw))
    return ev


def msyn(r, ev):
    nmin = int(r.randint(3, 9))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 12)), nmin, int(r.choice([1, 2, 3])), float(r.choice([0, 1, 2])))
    kw, _ = common(r)
    kw.pop("nn_params", None)
    p = float(r.choice([0.0, 0.25, 0.5, 1.0, 1.5]))
    kw.pop("proportion")
    if ranks(dists(X)) is None:
        return None
    new, ix, err = synthetic(sv.SMOTE, X, y, {**kw, "proportion": p * 3})
    if err or ix is None:
        return None
    D = dists(X)
    np.fill_diagonal(D, np.inf)
    hit = np.array([D[i][(y == y[i])].min() for i in range(len(X))])
    miss = np.array([D[i][(y != y[i])].min() for i in range(len(X))])
    score = []
    for v in new:
        d = np.sqrt(((X - v) ** 2).sum(axis=1))
        h2 = np.where(y == b, np.minimum(hit, d), hit)
        m2 = np.where(y == b, miss, np.minimum(miss, d))
        delta = 0.5 * (m2 - h2) - 0.5 * (miss - hit)
        score.append(-delta[y == a].sum() / (delta[y == b].sum() + 0.01))
    o = np.argsort(score)
    s = np.sort(score)
    if len(s) > 1 and np.any(np.diff(s) < 1e-9 * max(1, np.abs(s).max())):
        return None
    rank = np.empty(len(o), dtype=int)
    rank[o] = np.arange(1, len(o) + 1)
    (Xo, yo), err = sampled(sv.MSYN, X, y, pressure=p, **kw)
    ev.update(y=y.tolist(), p=ratio(p), rank=rank.tolist(), out=positions(Xo, len(X), ix), prefix=bool(np.array_equal(Xo[:len(X)], X)), yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y), params=str(kw))
    return ev


def gazzah(r, ev):
    X, y, a, b = integers(r, 24)
    p = float(r.choice(PROPS))
    M, N = X[y == a], X[y == b]
    d = X.shape[1]
    if len(set(map(tuple, M.tolist()))) < len(M) or len(M) < 2 or len(M) < d:
        return None
    z = ((len(M) * M - M.sum(axis=0)) ** 2).sum(axis=1)
    if np.any(len(M) * z == z.sum()) or len(M) * z.max() > 1e9:
        return None
    (Xo, yo), err = sampled(sv.Gazzah, X, y, proportion=p, n_components=d + int(r.choice([0, 1])), random_state=int(r.randint(50)))
    q = int(abs(np.sum(y == a) - np.sum(y == b)) * p)
    k = max(1, int(np.rint(q / len(N))))
    ix = index_of(M)
    keep = [ix.get(tuple(v), 0) for v in Xo[yo == a].tolist()]
    got, exact = scaled(Xo[yo == b], len(N) * (k + 1))
    ev.update(X=N.astype(int).tolist(), M=M.astype(int).tolist(), y=y.tolist(), p=ratio(p), keep=keep, got=got, exact=exact, yout=yo.tolist(),
              same=same(Xo, yo, X, y), err=err, untouched=same(Xo, yo, X, y))
    return ev


def append(r, ev):
    nmin = int(r.randint(3, 9))
    X, y, a, b = two_class(r, nmin + int(r.randint(1, 12)), nmin, 2, float(r.choice([0, 1, 2])))
    kw, _ = common(r)
    bn = int(r.choice([2, 3, 5]))
    k = kw.pop("n_neighbors")
    p = kw.pop("proportion")
    if int((np.sum(y == a) - np.sum(y == b)) * p) == 0:
        return None
    if "nn_params" in kw:
        kw.pop("nn_params")
    (X0, _), e0 = sampled(sv.SMOTE, X, y, proportion=p, n_neighbors=k, **kw)
    (X1, _), e1 = sampled(sv.ADASYN, X, y, n_neighbors=bn, **kw)
    (Xo, yo), err = sampled(sv.NEATER, X, y, proportion=p, smote_n_neighbors=k, b=bn, **kw)
    if e0 or e1 or len(X0) + len(X1) - len(X) <= bn:
        return None
    E = np.vstack([X0, X1[len(X):]])
    ev.update(y=y.tolist(), same=bool(np.array_equal(Xo, E)), total=len(E), yout=yo.tolist(), err=err, untouched=same(Xo, yo, X, y), params=str(kw))
    return ev


KINDS = {f.__name__: f for f in (combine, graph, polynomial, mesh, curve, nothing, ipf, rsb, msyn, gazzah, append)}


def run_case(t):
    """the first of some attempts within the scope"""
    for j in range(12):
        r = np.random.RandomState((t["seed"] * 131 + 977 * j) % 2 ** 31)
        ev = KINDS[t["op"]](r, {"op": t["op"], "seed": t["seed"], "attempt": j, "err": ""})
        if ev is not None:
            return [ev]
    return []

"""Driver for C20: queries under integer metric tensors with several memory chunks; samplers under identity tensors."""
import inspect
import logging
import random
import traceback
import warnings

import numpy as np

import env

sv = env.load_sv()
from smote_variants import config  # noqa: E402
from smote_variants.base import (MetricLearningMixin, NearestNeighborsWithMetricTensor, distances_mahalanobis, fix_pd_matrix, n_neighbors_func,  # noqa: E402
                                 pairwise_distances_mahalanobis)

warnings.filterwarnings("ignore")
logging.getLogger("smote_variants").setLevel(logging.CRITICAL)
DEFAULT = 50_000_000


def ints(a):
    return [[int(v) for v in row] for row in np.asarray(a)]


def squared(d, scale):
    """recorded form of distances"""
    v = np.asarray(d, dtype=float) ** 2 / scale * 1000
    return np.where(np.isfinite(v) & (np.abs(v) < 2 ** 30), np.round(np.nan_to_num(v, posinf=0, neginf=0)), -10 ** 6).astype(int)


def tensor_of(kind, dim, r):
    if kind in ("none", "identity"):
        return np.eye(dim, dtype=int)
    if kind == "near":
        # the identity up to some per mille
        N = r.randint(-4, 5, size=(dim, dim))
        return 1000 * np.eye(dim, dtype=int) + N + N.T
    if kind == "diagonal":
        return np.diag(r.randint(0 if dim > 1 else 1, 6, size=dim))
    L = r.randint(-3, 4, size=(1 if kind == "singular" else dim, dim))
    return L.T @ L


def run_query(t):
    c = t["cfg"]
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    dim = int(r.choice([1, 2, 3, 4]))
    M = tensor_of(c["tensor"], dim, r)
    nc = int(r.randint(1, 13))
    C = r.randint(-5, 6, size=(nc, dim))
    if c["queries"] == "same":
        Q = C
    else:
        Q = r.randint(-6, 7, size=(1 if c["queries"] == "one" else int(r.randint(2, 9)), dim))
    if c["op"] == "paired":
        n = min(len(Q), len(C))
        Q, C = Q[:n], C[:n]
    unit = float(r.choice([1.0, 1.0, 0.1, 1 / 3, 7.3]))
    mscale = 1.0 if c["tensor"] in ("none", "identity") else 1e-3 if c["tensor"] == "near" else float(r.choice([1.0, 0.1, 1 / 7]))
    scale = unit ** 2 * mscale
    shift = r.choice([0.0, 0.0, 10.0], size=dim)
    typ = int if unit == 1.0 and r.rand() < 0.2 else float
    X, Y = (Q * unit + shift).astype(typ), (C * unit + shift).astype(typ)
    T = None if c["tensor"] == "none" else M * mscale
    k = int(r.randint(1, len(C) + 1))
    e = dict(op=c["op"].split()[0], cfg=c, seed=t["seed"], err="", base=ints(Q), cand=ints(C), tensor=ints(M), k=k, ids=[], dist=[], with_dist=False, r2=0, sorted=False, indexable=True)
    nn = dict(metric="minkowski") if T is None else dict(metric="precomputed", metric_tensor=T)
    try:
        config.distance_matrix_max_memory_chunk(c["memory"])
        if c["op"] == "pairwise":
            kw = {} if c["queries"] == "same" and c["dist"] else {"Y": Y}
            e["dist"] = squared(pairwise_distances_mahalanobis(X, tensor=T, optimized=c["sort"], **kw), scale).tolist()
        elif c["op"] == "paired":
            e["dist"] = squared(distances_mahalanobis(X, Y, tensor=T), scale).tolist()
        elif c["op"] == "knn function":
            res = n_neighbors_func(X, None if c["queries"] == "same" and c["sort"] else Y, n_neighbors=k, metric_tensor=T, return_distance=c["dist"])
            record(e, res, c["dist"], scale)
        elif c["op"] == "knn object":
            obj = NearestNeighborsWithMetricTensor(n_neighbors=k if c["argument"] == "object" else 1 + k % 3, n_jobs=c["jobs"], **nn)
            res = obj.fit(Y).kneighbors(X, None if c["argument"] == "object" else k, c["dist"])
            record(e, res, c["dist"], scale)
        else:
            D = np.einsum("ijk,kl,ijl->ij", Q[:, None] - C, M, Q[:, None] - C)
            r2 = int(r.choice(np.append(D.ravel(), [0, 1, 4, 10000])))
            exact = scale == 1.0 and not shift.any() and round(r2 ** 0.5) ** 2 == r2
            radius = float(r2 ** 0.5) if exact else float((r2 + 0.5) ** 0.5 * scale ** 0.5)
            e["r2"] = r2
            e["sorted"] = c["sort"] and c["dist"]
            obj = NearestNeighborsWithMetricTensor(n_neighbors=3, radius=radius if c["argument"] == "object" else radius / 2 + 0.3, n_jobs=c["jobs"], **nn)
            kw = {"sort_results": True} if e["sorted"] else {}
            res = obj.fit(Y).radius_neighbors(X, None if c["argument"] == "object" else radius, c["dist"], **kw)
            record(e, res, c["dist"], scale)
            try:
                e["indexable"] = all(len(Y[i]) == len(i) for i in (res[1] if c["dist"] else res))
            except IndexError:
                e["indexable"] = False
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-800:]
    finally:
        config.distance_matrix_max_memory_chunk(DEFAULT)
    return [e]


def record(e, res, with_dist, scale):
    ind = res[1] if with_dist else res
    e["ids"] = [[int(v) + 1 for v in row] for row in ind]
    if with_dist:
        e["with_dist"] = True
        e["dist"] = [squared(row.astype(float), scale).tolist() for row in res[0]]


class Holder(MetricLearningMixin):
    pass


def run_tensor(t):
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    dim = int(r.choice([1, 2, 3, 4]))
    n = int(r.randint(12, 30))
    y = np.array([1] * 6 + [0] * (n - 6))
    r.shuffle(y)
    X = r.normal(size=(n, dim)) * 10 ** r.uniform(-1, 1, size=dim)
    kind = t["kind"]
    e = dict(op="tensor", kind=kind, seed=t["seed"], err="", equal=True, psd=True)
    try:
        if kind == "given":
            L = r.normal(size=(dim, dim))
            T = L.T @ L
            p = {"metric": str(r.choice(["precomputed", "minkowski"])), "metric_tensor": T.copy(), "metric_learning_method": "ITML"}
            e["equal"] = bool(np.array_equal(Holder().metric_tensor_from_nn_params(p, X, y), T))
        elif kind == "none":
            p = [{}, {"metric": "minkowski"}, {"metric": "minkowski", "metric_learning_method": "ITML"}][t["seed"] % 3]
            e["equal"] = Holder().metric_tensor_from_nn_params(p, X, y) is None
        else:
            T = Holder().metric_tensor_from_nn_params({"metric": "precomputed", "metric_learning_method": kind}, X, y)
            want = {"id": np.eye(dim), "cov": np.atleast_2d(np.cov(X.T)), "cov_min": np.atleast_2d(np.cov(X[y == 1].T))}.get(kind)
            if kind in ("cov", "cov_min"):
                want = np.linalg.inv(want) if np.linalg.eigvalsh(want)[0] > 2e-4 else np.linalg.inv(fix_pd_matrix(want))
            if want is not None:
                e["equal"] = bool(np.allclose(T, want, rtol=1e-6, atol=1e-9))
            T = np.asarray(T, dtype=float)
            e["psd"] = T.shape == (dim, dim) and bool(np.allclose(T, T.T, rtol=1e-6, atol=1e-9)) and bool(np.linalg.eigvalsh((T + T.T) / 2)[0] >= -1e-6 * max(1, np.abs(T).max()))
    except Exception:  # noqa
        e["err"] = traceback.format_exc()[-800:]
    return [e]


# search in transformed features, a given tensor of the original ones does not apply
TRANSFORMED = ["NRAS", "LLE_SMOTE", "E_SMOTE"]
# the stochastic embedding depends on the last bits, tensorflow fixes the number of threads of a process
SKIP = ["MOT2LD", "DEAGO"]


def samplers():
    return [c for c in sv.get_all_oversamplers() if "nn_params" in inspect.signature(c.__init__).parameters and c.__name__ not in SKIP]


def run_sampler(t):
    cls = getattr(sv, t["cls"])
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    dim = int(r.choice([2, 3, 4]))
    nmin, nmaj = int(r.randint(12, 20)), int(r.randint(30, 45))
    X = np.vstack([r.normal(size=(nmaj, dim)), r.normal(size=(nmin, dim)) * 0.8 + 0.9])
    y = np.array([0] * nmaj + [1] * nmin)
    p = r.permutation(len(y))
    X, y = X[p], y[p]
    names = inspect.signature(cls.__init__).parameters
    seed = int(r.randint(1000))

    eye = np.eye(dim)

    def run(tensor, memory, jobs):
        kw = {"random_state": seed}
        if tensor is not None:
            if t["cls"] in TRANSFORMED or (tensor is eye and t["seed"] % 2):
                kw["nn_params"] = {"metric": "precomputed", "metric_learning_method": "id" if tensor is eye else "cov"}
            else:
                kw["nn_params"] = {"metric": "precomputed", "metric_tensor": tensor.copy()}
        if "n_jobs" in names:
            kw["n_jobs"] = jobs
        np.random.seed(7)
        random.seed(7)
        config.distance_matrix_max_memory_chunk(memory)
        try:
            return cls(**kw).sample(X.copy(), y.copy())
        except Exception as ex:  # noqa
            return repr(ex)[:300]
        finally:
            config.distance_matrix_max_memory_chunk(DEFAULT)

    def same(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str)
        return a[0].shape == b[0].shape and bool(np.allclose(a[0], b[0], rtol=1e-5, atol=1e-6)) and bool(np.array_equal(a[1], b[1]))
    L = r.normal(size=(dim, dim))
    T = L.T @ L + 0.1 * eye
    evs = []

    def ev(clause, a, b):
        why = "" if not isinstance(a, str) and not isinstance(b, str) else f"{a if isinstance(a, str) else 'ok'} / {b if isinstance(b, str) else 'ok'}"
        evs.append(dict(op="sampler", cls=t["cls"], seed=t["seed"], err="", clause=clause, equal=same(a, b), why=why))
    plain = run(None, DEFAULT, 1)
    ident = run(eye, DEFAULT, 1)
    ev("sampling under the identity tensor is the Euclidean one", plain, ident)
    full = run(T, DEFAULT, 1)
    ev("sampling does not depend on the memory chunk", full, run(T, int(r.choice([1, 50, 333, 2000])), 1))
    if "n_jobs" in names and t.get("jobs"):
        ev("sampling does not depend on the number of jobs", plain, run(None, DEFAULT, 2))
    return evs


def list_samplers(t):
    return [c.__name__ for c in samplers()]

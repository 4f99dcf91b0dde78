"""Driver for C24 (and the segments of C03): where rule based oversamplers put their samples.

For every call the driver records the dataset as labels and ranks of distances, and per synthetic
sample every geometric placement it has (a base row and further rows it lies between, with the
position); which of them the rule of the sampler allows is decided by Placement.tla."""
import itertools

import numpy as np

import env

sv = env.load_sv()
from sklearn.cluster import AgglomerativeClustering, DBSCAN, KMeans  # noqa: E402
from sklearn.decomposition import PCA  # noqa: E402
from sklearn.preprocessing import MinMaxScaler, StandardScaler  # noqa: E402

TOL = 1e-8
SIMPLEX = ["SMOTE", "ADASYN", "SDSMOTE", "MCT", "Lee", "Borderline_SMOTE1", "Edge_Det_SMOTE", "NT_SMOTE", "G_SMOTE", "ANS", "MWMOTE", "ProWSyn", "CBSO",
           "Assembled_SMOTE", "NRSBoundary_SMOTE", "cluster_SMOTE", "kmeans_SMOTE", "TRIM_SMOTE", "CE_SMOTE", "Supervised_SMOTE", "AND_SMOTE", "A_SUWO",
           "SMOTE_RSB"]
PAIR = ["SMOTE_D", "Borderline_SMOTE2", "ISMOTE", "NDO_sampling", "SMOTEWB", "VIS_RST", "DBSMOTE"]
BOX = ["Safe_Level_SMOTE", "LN_SMOTE", "MSMOTE", "Selected_SMOTE", "SMOBD", "SOI_CJ"]
OTHER = ["SMOTE_AMSR", "Random_SMOTE", "SMOTE_OUT", "SMOTE_Cosine", "distance_SMOTE", "SMMO", "ADOMS", "DSMOTE", "Stefanowski", "SPY"]
CLASSES = SIMPLEX + PAIR + BOX + OTHER
SLOW = {"CE_SMOTE": 4, "SMOTE_AMSR": 2, "DSMOTE": 2, "ADOMS": 2}


def data(r, d, nmin, nmaj, spread):
    X = np.vstack([r.normal(size=(nmin, d)) * 0.8 + spread / np.sqrt(d), r.normal(size=(nmaj, d))])
    if r.rand() < 0.4:   # a few minority rows deep in the majority, and a clump
        X[0] = r.normal(size=d) - 0.5
        X[1] = X[2] + r.normal(size=d) * 0.1
    y = np.array([1] * nmin + [0] * nmaj)
    p = r.permutation(len(y))
    return X[p], y[p]


def distances(X, T):
    D = X[:, None, :] - X[None, :, :]
    if T is None:
        return np.sqrt((D ** 2).sum(axis=2))
    return np.sqrt(np.maximum(np.einsum("ijk,kl,ijl->ij", D, T, D), 0))


def ranks(D):
    """ranks of the pairwise distances, None unless they differ safely"""
    iu = np.triu_indices(len(D), 1)
    v = D[iu]
    o = np.sort(v)
    if len(o) > 1 and (np.diff(o) < 1e-7 * o[-1]).any():
        return None
    R = np.zeros(D.shape, int)
    R[iu] = np.argsort(np.argsort(v)) + 1
    return R + R.T


def pos(t):
    """positions in 1/10000, rounded inward"""
    return int(np.floor(min(t, 9.0) * 10000 + 0.01)), int(np.ceil(max(t, -9.0) * 10000 - 0.01))


def cand(b, s, lo, hi):
    return {"b": int(b) + 1, "s": [int(v) + 1 for v in s], "lo": max(pos(lo)[0], 0), "hi": max(pos(hi)[1], 0)}


def at_rows(p, X, sc):
    return [cand(i, [], 0, 0) for i in np.where(np.abs(X - p).max(axis=1) <= TOL * sc)[0]]


FULL = {"ADOMS": 250, "Random_SMOTE": 400, "SMOTE_OUT": 400, "SMOTE_Cosine": 400, "distance_SMOTE": 400, "SMOTE_AMSR": 500}
COVERED = ["SMOTE", "ADASYN", "SDSMOTE", "Edge_Det_SMOTE", "Selected_SMOTE", "Random_SMOTE", "SMOTE_OUT", "SMOTE_Cosine", "distance_SMOTE", "ADOMS", "cluster_SMOTE",
           "NT_SMOTE", "NDO_sampling", "Borderline_SMOTE1", "Borderline_SMOTE2", "MSMOTE", "CBSO", "ProWSyn", "Safe_Level_SMOTE", "LN_SMOTE", "ANS", "SMOTE_AMSR", "TRIM_SMOTE", "SOI_CJ", "DBSMOTE", "AND_SMOTE"]


def segments(p, X, sc, strict=False):
    out = []
    for i in range(len(X)):
        V = X - X[i]
        q = p - X[i]
        den = (V ** 2).sum(axis=1)
        den[i] = 1
        t = V @ q / den
        res = np.abs(q - t[:, None] * V).max(axis=1)
        ok = (res <= TOL * sc) & (t >= -1e-9) & (t <= 1 + 1e-9)
        if strict and np.abs(q).max() <= TOL * sc:   # at the base itself: not drawn from a segment
            ok[:] = False
        ok &= ~(strict & (np.abs(t - 1) <= 1e-9))
        ok[i] = False
        out += [cand(i, [j], t[j], t[j]) for j in np.where(ok)[0]]
    return out


_TRI = {}


def triangles(p, X, sc, rows):
    key = tuple(rows)
    T = np.array(list(itertools.combinations(rows, 3)))
    if not len(T):
        return []
    A, B, C = X[T[:, 0]], X[T[:, 1]], X[T[:, 2]]
    u, v, w = B - A, C - A, p - A
    uu, uv, vv, wu, wv = (u * u).sum(1), (u * v).sum(1), (v * v).sum(1), (w * u).sum(1), (w * v).sum(1)
    det = uu * vv - uv ** 2
    det[np.abs(det) < 1e-12] = np.nan
    a, b = (wu * vv - wv * uv) / det, (wv * uu - wu * uv) / det
    res = np.abs(w - a[:, None] * u - b[:, None] * v).max(axis=1)
    ok = (res <= 10 * TOL * sc) & (a >= -1e-7) & (b >= -1e-7) & (a + b <= 1 + 1e-7)
    out = []
    for q in np.where(ok)[0]:
        w3 = [1 - a[q] - b[q], a[q], b[q]]
        for x in range(3):
            out.append(cand(T[q][x], [T[q][z] for z in range(3) if z != x], 1 - w3[x], 1 - w3[x]))
    return out


def box(p, a, V, lim=1.0):
    """range over the features of the position of p between a and the rows of V (matrix); None where outside"""
    V = V - a
    with np.errstate(all="ignore"):
        t = np.where(np.abs(V) > 1e-12, (p - a) / V, np.where(np.abs(p - a) <= 1e-9, 0, np.inf))
    ok = ((t >= -1e-7) & (t <= lim + 1e-7)).all(axis=1)
    return ok, t.min(axis=1), t.max(axis=1)


def boxes(p, X, rows, others):
    out = []
    for i in rows:
        js = [j for j in others if j != i]
        ok, lo, hi = box(p, X[i], X[js])
        out += [cand(i, [js[x]], lo[x], hi[x]) for x in np.where(ok)[0]]
    return out


def hulls(p, X, rows):
    """boxes of a row and two others"""
    out = []
    for i in rows:
        for j, k in itertools.combinations_with_replacement([j for j in rows if j != i], 2):
            # tmp between j and k, sample between i and tmp, featurewise
            lo = np.minimum(np.minimum(X[j], X[k]), X[i])
            hi = np.maximum(np.maximum(X[j], X[k]), X[i])
            if ((p >= lo - 1e-9) & (p <= hi + 1e-9)).all():
                out.append(cand(i, sorted({j, k}), 0, 0))
    return out


def outward(p, X, mins, majs):
    """between x and up to half way to u moved away from v"""
    out = []
    for u in mins:
        for x in mins:
            if x == u:
                continue
            a = 0.5 * (X[u] - X[x])
            b = a + 0.15 * (X[u] - X[majs])
            lo, hi = np.minimum(np.minimum(a, b), 0), np.maximum(np.maximum(a, b), 0)
            q = p - X[x]
            ok = ((q >= lo - 1e-9) & (q <= hi + 1e-9)).all(axis=1)
            out += [cand(u, [x, majs[v]], 0, 0) for v in np.where(ok)[0]]
    return out


def nearest_prefixes(i, rows, R):
    o = sorted((j for j in rows if j != i), key=lambda j: R[i][j])
    return [o[:n] for n in range(1, len(o) + 1)]


def to_means(p, X, mins, R, sc):
    out = []
    for i in mins:
        for s in nearest_prefixes(i, mins, R):
            m = X[s].mean(axis=0) - X[i]
            q = p - X[i]
            t = m @ q / (m @ m)
            if np.abs(q - t * m).max() <= TOL * sc and -1e-9 <= t <= 1 + 1e-9:
                out.append(cand(i, s, t, t))
    return out


def along_component(p, X, mins, R, sc):
    out = []
    for i in mins:
        for s in nearest_prefixes(i, mins, R):
            nb = X[[i] + s]
            dirn = PCA(n_components=1).fit(nb).components_[0]
            q = p - X[i]
            t = q @ dirn
            if np.abs(q - t * dirn).max() > 1e-7 * sc:
                continue
            prod = (X[s] - X[i]) @ dirn
            side = [np.linalg.norm(X[j] - X[i]) for j, z in zip(s, prod) if (z > 0) == (t > 0) or abs(t) < 1e-9]
            if side and abs(t) <= max(side) * (1 + 1e-7):
                out.append(cand(i, [i] + s, 0, 0))
    return out


def to_mean_box(p, X, mins):
    m = X[mins].mean(axis=0)[None, :]
    out = []
    for i in mins:
        ok, lo, hi = box(p, X[i], m)
        if ok[0]:
            out.append(cand(i, mins, lo[0], hi[0]))
    return out


def geometric_triples(Y, upto, rows, p):
    """triples (indices into Y) whose geometric mean is p"""
    ids = list(rows) + list(range(upto[0], upto[1]))
    if len(ids) < 3:
        return []
    T = np.array(list(itertools.combinations(ids, 3)))
    L = np.log(Y)
    g = np.exp((L[T[:, 0]] + L[T[:, 1]] + L[T[:, 2]]) / 3)
    ok = np.abs(g - p).max(axis=1) <= 1e-8
    return [cand(T[q][0], T[q], 0, 0) for q in np.where(ok)[0]]


def params(cls, r, nn):
    c, g = {}, lambda a: a[r.randint(len(a))]
    k = int(g([1, 2, 3, 4, 5, 5, 7, 12]))
    if cls in ("Borderline_SMOTE1", "Borderline_SMOTE2"):
        c = {"n_neighbors": int(g([3, 4, 5, 5, 6])), "k_neighbors": k}
    elif cls in ("Edge_Det_SMOTE", "SMOTE_D"):
        c = {"k": k}
    elif cls == "MWMOTE":
        c = {"k1": int(g([1, 2, 5])), "k2": int(g([1, 2, 5])), "k3": int(g([1, 2, 3, 5])), "M": int(g([2, 3, 4, 10]))}
    elif cls == "ProWSyn":
        c = {"n_neighbors": int(g([1, 1, 2, 3])), "L": int(g([1, 2, 3, 5]))}
    elif cls == "CBSO":
        c = {"n_neighbors": k, "C_p": g([0.8, 1.0, 1.3, 1.6])}
    elif cls == "NRSBoundary_SMOTE":
        c = {"n_neighbors": k, "w": g([0.005, 0.1, 0.3])}
    elif cls == "cluster_SMOTE":
        c = {"n_neighbors": int(g([2, 3, 4, 6])), "n_clusters": int(g([1, 2, 3, 4]))}
    elif cls == "kmeans_SMOTE":
        c = {"n_neighbors": k, "n_clusters": int(g([2, 3, 5])), "irt": g([1.0, 2.0, 3.0])}
    elif cls == "ISMOTE":
        c = {"n_neighbors": int(g([2, 3, 5, 7])), "minority_weight": g([0.25, 0.5, 0.75])}
    elif cls == "NDO_sampling":
        c = {"n_neighbors": k, "T": g([0.3, 0.9, 1.5])}
    elif cls in ("A_SUWO",):
        c = {"n_neighbors": int(g([2, 3, 5])), "n_clus_maj": int(g([2, 5])), "c_thres": g([0.5, 0.8, 1.2])}
    elif cls == "AND_SMOTE":
        c = {"K": int(g([3, 5, 15]))}
    elif cls == "CE_SMOTE":
        c = {"h": 3, "k": int(g([3, 5])), "alpha": g([0.7, 0.9])}
    elif cls == "SMOBD":
        c = {"min_samples": int(g([2, 3, 5])), "max_eps": g([2.0, 5.0])}
    elif cls == "SOI_CJ":
        c = {"method": "interpolation"}
    elif cls == "DBSMOTE":
        c = {"eps": g([0.8, 1.5, 3.0]), "min_samples": int(g([2, 3]))}
    elif cls == "SMOTE_AMSR":
        c = {"topology": g(["mesh", "bus", "star"])}
    elif cls == "DSMOTE":
        c = {"rate": g([0.0, 0.1, 0.25]), "n_step": 20}
    elif cls == "Stefanowski":
        c = {"strategy": g(["weak_amp", "weak_amp_relabel", "strong_amp"])}
    elif cls == "SPY":
        c = {"n_neighbors": int(g([2, 3, 5, 7])), "threshold": g([0.25, 0.5, 0.75])}
    elif cls == "Lee":
        c = {"n_neighbors": k, "rejection_level": g([0.3, 0.5])}
    elif cls == "VIS_RST":
        c = {"n_neighbors": int(g([1, 2, 3]))}
    elif cls == "SMOTEWB":
        c = {"n_iters": 20, "max_depth": int(g([3, 30]))}
    elif cls == "TRIM_SMOTE":
        c = {"n_neighbors": k, "min_precision": g([0.2, 0.4])}
    elif cls == "ADASYN":
        c = {"n_neighbors": k, "d_th": g([0.9, 0.5]), "beta": g([1.0, 0.5])}
    elif cls in ("NT_SMOTE", "ANS", "Supervised_SMOTE"):
        c = {}
    else:
        c = {"n_neighbors": k}
    if cls == "Supervised_SMOTE":
        c["classifier"] = ("sklearn.tree", "DecisionTreeClassifier", {"max_depth": 2, "random_state": 5})
        c["th_lower"] = 0.3
    return c


def ssparams(cls, r):
    if cls in SIMPLEX:
        nd = int(r.choice([2, 2, 2, 3]))
        if cls in ("SMOTE", "ADASYN", "MCT") and r.rand() < 0.1:
            nd = 1
        within = "deterministic" if nd < 3 and r.rand() < 0.15 else "random"
        sel = "random" if r.rand() < 0.7 else ("deterministic" if r.rand() < 0.7 or nd != 2 else "volume")
        if cls not in ("SMOTE", "ADASYN", "MCT", "SDSMOTE", "Borderline_SMOTE1"):
            sel = "random" if sel == "volume" else sel
        return {"n_dim": nd, "simplex_sampling": sel, "within_simplex_sampling": within, "gaussian_component": None}
    if cls in ("Borderline_SMOTE2", "ISMOTE", "NDO_sampling", "VIS_RST", "distance_SMOTE", "SMMO", "SOI_CJ"):
        return {"n_dim": 2, "simplex_sampling": "random", "within_simplex_sampling": "random", "gaussian_component": None}
    return None


def match(X, Xo, yo, sc):
    """output row -> input row (first come), rows matched again are copies"""
    n = len(X)
    kept, rel, copied, synth = [False] * n, [False] * n, [0] * n, []
    D = np.abs(Xo[:, None, :] - X[None, :, :]).max(axis=2) if len(Xo) else np.zeros((0, n))
    for o in range(len(Xo)):
        i = int(np.argmin(D[o]))
        if D[o][i] <= TOL * sc[:].max():
            if not kept[i]:
                kept[i], rel[i] = True, bool(yo[o] == 1)
            else:
                copied[i] += 1
                synth.append(o)
        else:
            synth.append(o)
    return kept, rel, copied, synth


def run_case(t):
    cls, seed = t["cls"], t["seed"]
    r = np.random.RandomState(seed % 2 ** 31)
    C = getattr(sv, cls)
    for attempt in range(30):
        d = int(r.choice([5, 6, 7])) if cls in BOX + ["SMOTE_AMSR", "Random_SMOTE", "SMOTE_OUT", "SMOTE_Cosine"] else int(r.choice([4, 4, 5, 6]))
        nmin = int(r.randint(7 if cls == "Stefanowski" else 4, 12))
        nmaj = nmin + int(r.randint(3, 14))
        if t.get("full"):
            nmin = int(r.randint(4, 7))
            nmaj = nmin + int(r.randint(3, 9))
        dist = r.choice([0.4, 0.8, 1.2, 2.0])
        if cls == "VIS_RST":
            nmaj, dist = nmaj + 8, dist + 1.0
        if cls == "SMMO":
            dist = dist * 0.3
        if cls in ("AND_SMOTE", "SOI_CJ") and r.rand() < 0.6:
            more = 0 if t.get("full") else 4
            dist, nmin, nmaj = dist * 0.4, nmin + more, nmaj + more
        X, y = data(r, d, nmin, nmaj, dist * np.sqrt(d) * 0.7)
        T = None
        import inspect
        if t.get("metric", True) and r.rand() < 0.2 and cls not in ("SMOTE_Cosine", "SMOTE_AMSR", "Supervised_SMOTE", "SMOBD"):
            A = r.normal(size=(d, d))
            T = A @ A.T / d + 0.1 * np.eye(d)
        S = X
        if cls in ("VIS_RST", "DBSMOTE"):
            S = StandardScaler().fit_transform(X)
        if cls == "DSMOTE":
            S = MinMaxScaler(feature_range=(1e-6, 1 - 1e-6)).fit_transform(X)
        D = distances(S, T)
        R = ranks(D)
        if R is not None:
            break
    pc = params(cls, r, T)
    ss = ssparams(cls, r)
    if t.get("full"):
        if ss:
            ss.update(n_dim=2, simplex_sampling="random", within_simplex_sampling="random")
        for a in ("n_neighbors", "k_neighbors", "k"):
            if a in pc:
                pc[a] = min(pc[a], 5 if cls in ("Borderline_SMOTE1", "Borderline_SMOTE2") and a == "n_neighbors" else 4)
    prop = float(r.choice([1.0, 1.0, 0.5, 2.0]))
    diff = nmaj - nmin
    if t.get("full"):
        prop = float(FULL.get(cls, 1500) // diff)
    rs = int(r.randint(1, 100))
    kw = dict(pc)
    if cls not in ("ISMOTE", "Stefanowski", "SPY"):
        kw["proportion"] = prop
    if ss:
        kw["ss_params"] = ss
    if T is not None:
        kw["nn_params"] = {"metric": "precomputed", "metric_tensor": T}
    mins, majs = [int(i) for i in np.where(y == 1)[0]], [int(i) for i in np.where(y == 0)[0]]
    n = len(y)
    ev = {"op": {"Stefanowski": "stef", "SPY": "spy", "DSMOTE": "geo"}.get(cls, "place"), "cls": cls, "seed": seed, "params": str({k: v for k, v in kw.items() if k != "nn_params"}),
          "metric": T is not None, "mn": [bool(v) for v in y == 1], "R": R.tolist(), "k": 0, "m": 0, "k1": 0, "k2": 0, "k3": 0, "L": 0, "ndim": 2, "quota": int(prop * diff),
          "err": "", "copies": False, "pts": [], "thr": 0, "radius": [0] * n, "ord": [], "clu": [0] * n, "irt": [1, 1], "weight": [1, 2], "kept": [True] * n,
          "relabelled": [False] * n, "copied": [0] * n, "untouched": False, "far": [0] * n, "separated": False, "topology": "", "dth": False, "strategy": "",
          "threshold": [1, 2], "rate": [0, 1], "nsyn": 0, "th": [], "ball": [], "dbs": [], "W": [], "centre": [False] * n, "full": bool(t.get("full"))}
    facts(ev, cls, pc, ss, S, y, D, R, mins, majs, rs, T)
    if ev.pop("ambiguous", False):
        return []
    X0, y0 = X.copy(), y.copy()
    np.random.seed(seed % 1000)
    try:
        Xo, yo = C(**kw, random_state=rs).sample(X, y)
    except Exception as e:  # noqa
        ev["err"] = f"{type(e).__name__}: {e}"[:150]
        return [ev]
    sc = np.abs(X0).max(axis=0)
    ev["untouched"] = bool(len(Xo) == n and np.allclose(Xo, X0, atol=0, rtol=1e-9) and np.array_equal(yo, y0))
    if cls in ("DSMOTE",):
        kept, rel, copied, synth = match(X0, Xo, yo, sc)
        ev["kept"] = [bool(k and (y0[i] == 0 or rel[i])) for i, k in enumerate(kept)]
    else:
        kept, rel, copied, synth = match(X0, Xo, yo, sc)
        ev["kept"] = kept
    ev.update(relabelled=rel, copied=copied, nsyn=len(synth))
    P = Xo[synth]
    P = P if t.get("full") else P[:30]
    s = float(sc.max())
    if cls in ("Stefanowski", "SPY"):
        return [ev]
    if cls == "DSMOTE":
        mms = MinMaxScaler(feature_range=(1e-6, 1 - 1e-6)).fit(X0)
        Y = np.vstack([S, mms.transform(Xo[synth])])
        ev["pts"] = [geometric_triples(Y, (n, n + q), [i for i in mins if ev["kept"][i]], Y[n + q]) for q in range(len(P))]
        return [ev]
    pts = []
    for p in P:
        c = at_rows(p, X0, s)
        if c and ev["copies"]:
            pts.append(c)
            continue
        if cls in SIMPLEX:
            c += segments(p, X0, s, ss["within_simplex_sampling"] == "random")
            if ss["n_dim"] == 3:
                c += triangles(p, X0, s, range(n) if not c else mins)
        elif cls in PAIR:
            c += segments(p, X0, s)
        elif cls in BOX:
            rows = range(n) if cls != "SMOBD" else mins
            c += boxes(p, X0, mins, range(n))
        elif cls == "SMOTE_AMSR":
            c += to_mean_box(p, X0, mins) if ev["topology"] == "star" else boxes(p, X0, mins, range(n))
        elif cls == "Random_SMOTE":
            c += hulls(p, X0, mins)
        elif cls in ("SMOTE_OUT", "SMOTE_Cosine"):
            c += outward(p, X0, mins, majs)
        elif cls in ("distance_SMOTE", "SMMO"):
            c += to_means(p, X0, mins, R, s)
        elif cls == "ADOMS":
            c += along_component(p, X0, mins, R, s)
        pts.append(c)
    if t.get("full"):   # equal sets of candidates once
        seen = {}
        for c in pts:
            seen.setdefault((tuple((x["b"], tuple(x["s"])) for x in c), tuple(x["lo"] // 2000 for x in c), tuple(x["hi"] // 2000 for x in c)), c)
        pts = list(seen.values())
    ev["pts"] = pts
    return [ev]


def facts(ev, cls, pc, ss, S, y, D, R, mins, majs, rs, T):
    """the data the rule refers to beyond labels and neighbourhoods"""
    n = len(y)
    ev["k"] = int(pc.get("n_neighbors", pc.get("k", 5)))
    if ss:
        ev["ndim"] = ss["n_dim"]
        ev["copies"] = ss["n_dim"] == 1
    if cls in ("Borderline_SMOTE1", "Borderline_SMOTE2"):
        ev["m"], ev["k"] = pc["n_neighbors"], pc["k_neighbors"]
    if cls == "MWMOTE":
        ev.update(k1=pc["k1"], k2=pc["k2"], k3=pc["k3"], copies=True)
        clusters(ev, S, mins, min(len(np.unique(S[mins], axis=1)), pc["M"]), rs)
    if cls == "cluster_SMOTE":
        clusters(ev, S, mins, min(len(mins), pc["n_clusters"]), rs)
        ev["copies"] = True
    if cls == "kmeans_SMOTE":
        clusters(ev, S, list(range(n)), min(n, pc["n_clusters"]), rs)
        ev["irt"] = [int(pc["irt"]), 1]
    if cls == "ProWSyn":
        ev["L"], ev["copies"] = pc["L"], True
    if cls == "SMOBD":
        ev["k"] = pc["min_samples"]
    if cls in ("CBSO", "A_SUWO", "Assembled_SMOTE", "SMOTEWB", "VIS_RST", "DBSMOTE", "CE_SMOTE"):
        ev["copies"] = True
    if cls == "CBSO":
        threshold(ev, D, np.mean([min(D[i][j] for j in mins if j != i) for i in mins]) * pc["C_p"])
    if cls == "TRIM_SMOTE":
        ev["copies"] = True
        ev["th"] = [int(round(1e6 * pc["min_precision"] * 0.9 ** x)) for x in range(60)]
    if cls in ("Edge_Det_SMOTE", "TRIM_SMOTE", "AND_SMOTE"):
        ev["ord"] = [[int(i) + 1 for i in np.argsort(S[:, f])] for f in range(S.shape[1])]
    if cls == "AND_SMOTE":
        ev["k"] = pc["K"]
    if cls == "SOI_CJ":
        balls(ev, S, T, D, y)
    if cls == "DBSMOTE":
        density(ev, S, T, D, mins, pc)
    if cls == "A_SUWO":
        w = min(n - 1, pc["n_neighbors"])
        near = {i: sorted((j for j in range(n) if j != i), key=lambda j: R[i][j])[:w] for i in range(n)}
        left = [i for i in range(n) if any(y[j] == y[i] for j in near[i])]
        lmin, lmaj = [i for i in left if y[i] == 1], [i for i in left if y[i] == 0]
        if len(lmaj) >= 2:
            lab = AgglomerativeClustering(n_clusters=min(len(lmaj), pc["n_clus_maj"])).fit(S[lmaj]).labels_
            for i, c in zip(lmaj, lab):
                ev["clu"][i] = int(c) + 1
        if len(lmin) >= 2:
            threshold(ev, D, np.mean(np.median(D[np.ix_(lmin, lmin)], axis=1)) * pc["c_thres"])
    if cls == "NRSBoundary_SMOTE":
        for i in range(n):
            o = np.delete(D[i], i)
            rad = o.min() + pc["w"] * (o.max() - o.min())
            ev["radius"][i] = int(max(R[i][j] for j in range(n) if j != i and D[i][j] <= rad))
            ev["ambiguous"] = ev.get("ambiguous", False) or any(abs(x - rad) < 1e-7 * rad for x in o if x != o.min())
    if cls == "ISMOTE":
        ev["quota"] = int((len(majs) - len(mins)) / 2 + 0.5)
        w = {0.25: [1, 4], 0.5: [1, 2], 0.75: [3, 4]}[pc["minority_weight"]]
        ev["weight"] = w
        f = D[np.ix_(majs, mins)].mean(axis=1)
        spread(ev, f, majs)
    if cls == "DSMOTE":
        a = D[np.ix_(mins, mins)].sum(axis=1) / (len(mins) - 1) / D[np.ix_(mins, majs)].mean(axis=1)
        spread(ev, a, mins)
        ev["rate"] = {0.0: [0, 1], 0.1: [1, 10], 0.25: [1, 4]}[pc["rate"]]
    if cls == "NDO_sampling":
        k = min(n - 1, pc["n_neighbors"])
        near = {i: sorted((j for j in range(n) if j != i), key=lambda j: R[i][j])[:k] for i in mins}
        a = [D[i][j] for i in mins for j in near[i] if y[j] == 1]
        b = [D[i][j] for i in mins for j in near[i] if y[j] == 0]
        alpha = 0.0 if not a else (np.inf if not b else np.mean(a) / np.mean(b))
        ev["ambiguous"] = abs(alpha - pc["T"]) < 1e-7
        ev["separated"] = bool(alpha < pc["T"])
    if cls == "SMOTE_AMSR":
        ev["topology"] = pc["topology"]
    if cls == "ADASYN":
        ev["dth"] = bool(len(mins) / len(majs) <= pc["d_th"])
    if cls == "Stefanowski":
        ev["strategy"] = pc["strategy"]
    if cls == "SPY":
        ev["threshold"] = {0.25: [1, 4], 0.5: [1, 2], 0.75: [3, 4]}[pc["threshold"]]


def balls(ev, S, T, D, y):
    """whether the minority prevails in the ball spanned by two rows"""
    n = len(y)
    ev["ball"] = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            d = distances(np.vstack([(S[i] + S[j])[None, :] / 2, S]), T)[0][1:]
            rad = D[i][j] / 2
            d[[i, j]] = rad
            ev["ambiguous"] = ev.get("ambiguous", False) or any(abs(d[x] - rad) < 1e-7 * rad for x in range(n) if x not in (i, j))
            inside = d <= rad
            ev["ball"][i][j] = bool(2 * (y[inside] == 1).sum() > inside.sum())


def density(ev, S, T, D, mins, pc):
    """labels of the density clusters per step, the rows closest to their centres and the lengths of the edges"""
    n = len(S)
    ev["k"] = pc["min_samples"]
    threshold(ev, D, pc["eps"])
    ev["W"] = [[int(round(v)) for v in row] for row in D / D.max() * 1e6]
    E = np.sqrt(((S[:, None, :] - S[None, :, :]) ** 2).sum(axis=2))[np.ix_(mins, mins)]
    for step in range(3):
        if pc["min_samples"] - step < 1:
            break
        ev["ambiguous"] |= bool((np.abs(E - pc["eps"] * 1.5 ** step) < 1e-7).any())
        lab = DBSCAN(eps=pc["eps"] * 1.5 ** step, min_samples=pc["min_samples"] - step).fit(S[mins]).labels_
        row = [0] * n
        for i, c in zip(mins, lab):
            row[i] = int(c) + 1
        ev["dbs"].append(row)
        if max(row) > 0:
            break
    for c in range(1, max(ev["dbs"][-1]) + 1):
        m = [i for i in mins if ev["dbs"][-1][i] == c]
        d = distances(np.vstack([S[m].mean(axis=0)[None, :], S[m]]), T)[0][1:]
        near = [i for i, v in zip(m, d) if v - d.min() < 1e-7]
        ev["ambiguous"] |= len(near) > 1 and len(m) > 2
        for i in near:
            ev["centre"][i] = True


def threshold(ev, D, th):
    """the number of pairs within the distance th: the ranks up to it"""
    v = [D[i][j] for i in range(len(D)) for j in range(i)]
    ev["ambiguous"] = any(abs(x - th) < 1e-7 * th for x in v)
    ev["thr"] = int(sum(x <= th for x in v))


def spread(ev, v, rows):
    o = np.sort(v)
    if (np.diff(o) < 1e-7 * np.abs(o).max()).any():
        ev["ambiguous"] = True
    for x, i in zip(np.argsort(np.argsort(v)), rows):
        ev["far"][i] = int(x) + 1


def clusters(ev, S, rows, k, rs):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lab = KMeans(n_clusters=int(k), n_init="auto", random_state=rs).fit(S[rows]).labels_
    for i, c in zip(rows, lab):
        ev["clu"][i] = int(c) + 1


def tasks(seed, per, only=None):
    return [dict(cls=c, seed=(seed * 1000003 + 5801 * ci + 97 * i + 11) % 2 ** 31) for ci, c in enumerate(CLASSES) if only is None or c in only
            for i in range(max(2, per // SLOW.get(c, 1)))] + [
        dict(cls=c, full=True, seed=(seed * 1000003 + 5801 * ci + 97 * i + 7) % 2 ** 31) for ci, c in enumerate(COVERED) if only is None or c in only
        for i in range(max(2, per // 9))]


def project(e):
    return {k: e[k] for k in ("cls", "seed", "params", "metric", "err", "nsyn", "quota")}

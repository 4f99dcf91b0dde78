"""Driver for C19: the simplex sampling core on integer points."""
import numpy as np

import env

sv = env.load_sv()
from smote_variants.base import SimplexSamplingMixin  # noqa: E402
from smote_variants.base._simplexsampling import all_neighbor_simplices_real_idx, deterministic_sample  # noqa: E402


def ints(a):
    return [[int(v) for v in row] for row in a]


def run_case(t):
    seed = t["seed"]
    r = np.random.RandomState(seed % 2 ** 31)
    nb, k = int(r.randint(2, 6)), int(r.randint(1, 6))
    dim = int(r.choice([1, 2, 2, 2, 3, 4]))
    k = max(k, 2) if r.rand() < 0.9 else k
    X = r.randint(0, 11, size=(nb, 2)).astype(float) * 0.84
    if r.rand() < 0.3:
        X[-1] = X[0]
    mode = str(r.choice(["own", "own", "same", "other"]))
    V = r.randint(0, 11, size=(int(r.randint(3, 8)), 2)).astype(float) * 0.84 if mode == "other" else X
    nv = len(V)
    k = min(k, nv)
    ind = np.array([[b if mode != "other" else r.randint(nv)] + list(r.permutation([v for v in range(nv) if v != b or mode == "other"])[:k - 1]) for b in range(nb)])
    ind = ind[:, :k] if ind.shape[1] >= k else ind
    if r.rand() < 0.15 and ind.shape[1] > 2:
        ind[:, -1] = ind[:, -2]
    k = ind.shape[1]
    n = int(r.choice([0, 1, 2, 3, 5, 7, 12]))
    ss = str(r.choice(["random", "deterministic", "deterministic", "volume"]))
    within = str(r.choice(["random", "deterministic"])) if dim <= 2 else "random"
    bw = sw = vw = None
    if r.rand() < 0.5:
        bw = r.choice([0, 0, 1, 1, 2, 3, 4], size=nb).astype(float)
    if r.rand() < 0.4:
        sw = r.choice([0, 1, 1, 2], size=(nb, k)).astype(float)
    if r.rand() < 0.4:
        vw = r.choice([0, 1, 2, 4, 4], size=nv)
    # admissible only if some simplex has a positive weight; the sum of deterministic weights a power of two
    cols = sorted({min(dim, k)})
    import itertools
    combos = list(itertools.combinations(range(1, k), cols[0] - 1))

    def total():
        tot, raw = 0.0, []
        for b in range(nb):
            for c in combos:
                w = (1.0 if bw is None else bw[b]) * (1.0 if sw is None else float(np.prod(sw[b][list(c)])))
                if ss == "volume" and bw is None and cols[0] == 2 and np.array_equal(X[b], V[ind[b][c[0]]]):
                    w = 0.0
                raw.append(w)
                tot += w
        return tot, raw
    if ss == "volume" and cols[0] != 2:
        ss = "random"
    tot, raw = total()
    for _ in range(300):
        if tot == 0 or (ss == "deterministic" and (bw is not None or sw is not None) and tot not in (1, 2, 4, 8, 16, 32, 64, 128)):
            if bw is not None:
                bw = r.choice([0, 0, 1, 1, 2, 3, 4], size=nb).astype(float)
            if sw is not None:
                sw = r.choice([0, 1, 1, 2], size=(nb, k)).astype(float)
            if bw is None and sw is None:
                ss = "random"
            tot, raw = total()
    if tot == 0 or (ss == "deterministic" and (bw is not None or sw is not None) and tot not in (1, 2, 4, 8, 16, 32, 64, 128)):
        bw = sw = None
        ss = "random"
    gauss = {"sigma": 0.5} if r.rand() < 0.1 else [None, {}][r.randint(2)]
    base = {"seed": seed, "err": "", "ind": ints(ind + 1), "dim": dim, "bw": [] if bw is None else [int(v) for v in bw],
            "sw": [] if sw is None else ints(sw), "vw": [] if vw is None else [int(v) for v in vw], "n": n, "ss": ss, "within": within,
            "X": ints(np.round(X * 1000)), "V": ints(np.round(V * 1000)), "same": mode != "other", "gauss": bool(gauss), "mode": mode, "got": [], "sel": [], "pts": [],
            "width": 0, "pure": True}
    evs = []

    def rec(op, f):
        ev = dict(base, op=op)
        try:
            f(ev)
        except Exception as e:  # noqa
            ev["err"] = f"{type(e).__name__}: {e}"[:150]
        evs.append(ev)

    d = min(dim, k)
    rec("enumerate", lambda ev: ev.update(got=ints(np.asarray(all_neighbor_simplices_real_idx(d, ind)) + 1)))

    def mk():
        return SimplexSamplingMixin(n_dim=dim, simplex_sampling=ss, within_simplex_sampling=within, gaussian_component=gauss, random_state=seed % 1000)
    kw = dict(base_weights=bw, indices=ind)
    Vx = {"own": None, "same": X, "other": V}[mode]
    sel = []

    def select(ev):
        got = mk().simplices(X, n, simplex_weights=sw, X_vertices=None if mode != "other" else V, n_dim=d, **kw)
        sel.extend(ints(np.asarray(got) + 1))
        ev["sel"] = sel
    if n > 0:
        rec("select", select)

    def sample(ev):
        ev["sel"] = sel
        args = dict(indices=ind, n_to_sample=n, base_weights=bw, vertex_weights=None if vw is None else vw / 4.0, X_vertices=Vx, simplex_weights=sw)
        copies = {a: np.array(v) for a, v in args.items() if isinstance(v, np.ndarray)}
        X0 = X.copy()
        pts = np.asarray(mk().sample_simplex(X, **args))
        ev["pts"] = ints(np.round(pts * 1000)) if pts.ndim == 2 else []
        ev["width"] = int(pts.shape[1]) if pts.ndim == 2 else -1
        ev["pure"] = bool(np.array_equal(X, X0) and all(np.array_equal(args[a], c) for a, c in copies.items()))
    if not (evs[-1]["op"] == "select" and evs[-1]["err"]):
        rec("sample", sample)
    # the bare deterministic selection
    m = int(r.randint(1, 7))
    w = r.randint(0, 5, size=m)
    W = 1
    while W < w.sum():
        W *= 2
    if w.sum() == 0:
        W = 4
    w[r.randint(m)] += W - w.sum()
    q = int(r.randint(0, 14))

    def alloc(ev):
        got = deterministic_sample(np.arange(m), q, w / float(W))
        ev["counts"] = [int(np.sum(got == i)) for i in range(m)]
    base = {"seed": seed, "err": "", "w": [int(v) for v in w], "n": q, "counts": []}
    if q > 0:
        rec("alloc", alloc)
    return evs


def run_cases(t):
    return [e for s in t["seeds"] for e in run_case({"seed": s})]

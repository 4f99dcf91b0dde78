"""Driver for C10."""
import numpy as np

import data
import drv_sampler as D
import env

sv = env.load_sv()
import smote_variants.undersampling as us  # noqa: E402
from smote_variants.base import instantiate_obj  # noqa: E402

OVERS = ["SMOTE", "distance_SMOTE", "ROSE", "Random_SMOTE", "Lee"]


def src(X, y, Xo, yo):
    """input row of every output row, distinct, same label preferred"""
    used, out = set(), []
    if Xo.ndim != 2 or Xo.shape[1] != X.shape[1]:
        return [0] * len(Xo)
    for i, row in enumerate(Xo):
        c = [j for j in np.where(np.all(X == row, axis=1))[0]]
        c = [j for j in c if j not in used and i < len(yo) and y[j] == yo[i]] or [j for j in c if j not in used] or c
        out.append(int(c[0]) + 1 if c else 0)
        if c:
            used.add(c[0])
    return out


def run_case(t):
    seed = t["seed"]
    r = np.random.RandomState(seed % 2 ** 31)
    info, X, y = data.dataset(seed, small=True, kind=t.get("kind"), layout=str(r.choice(["c", "f", "view"])))
    ev = dict(op="us", cls=t["cls"], seed=seed, kind=info["kind"], mode="", err="", errmsg="", yin=[int(v) for v in y], yout=[], src=[], dist=[], pure=True,
              shape=True, dig="", dig2="", alias=False, over="")
    s = int(seed % 1009) if seed % 5 else 0
    spec = None
    if t["cls"] == "OversamplingDrivenUndersampling":
        # unless the random selection is made of enough rows, the driving sampler matters less
        if r.rand() < 0.4 and (info["n_min"] < 3 or info["n_maj"] < 2 * info["n_min"]):
            info, X, y = data.dataset(seed, kind="n", small=True, ratio=float(r.uniform(1.1, 4)), layout="c")
            ev.update(kind="n", yin=[int(v) for v in y])
        ov = OVERS[r.randint(len(OVERS))]
        spec = ("smote_variants", ov, {"random_state": s, "proportion": float(r.choice([0.5, 1.0, 2.0]))})
        mode = ["random", "farthest"][r.randint(2)]
        ev.update(mode=mode, over=ov)

        def mk():
            return us.OversamplingDrivenUndersampling(spec, mode=mode, random_state=s)
    else:
        def mk():
            return us.RandomUndersampling(random_state=s)
    X0, y0 = X.copy(), y.copy()
    try:
        Xo, yo = mk().sample(X, y)
        np.random.seed(seed % 77)
        Xp, yp = mk().sample(X0.copy(), y0.copy())
    except Exception as e:  # noqa
        ev.update(err=type(e).__name__, errmsg=str(e)[:150])
        return [ev]
    ev["pure"] = bool(np.array_equal(X, X0) and np.array_equal(y, y0))
    ev["dig"], ev["dig2"] = D.digest(Xo, yo), D.digest(Xp, yp)
    ev["shape"] = bool(Xo.ndim == 2 and yo.ndim == 1 and len(Xo) == len(yo))
    ev["yout"] = [int(v) for v in yo]
    ev["src"] = src(X0, y0, Xo, yo)
    ev["alias"] = bool(np.shares_memory(Xo, X) or np.shares_memory(yo, y))
    if ev["mode"] == "farthest":
        S, _ = instantiate_obj(spec).sample(X0.copy(), y0.copy())
        S = S[len(X0):]
        d = np.array([np.sqrt(((S - x) ** 2).sum(axis=1)).min() if len(S) else 0.0 for x in X0])
        d = d / max(d.max(), 1e-12) * 1e8
        ev["dist"] = [int(v) for v in d]
    return [ev]

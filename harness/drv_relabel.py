"""Driver for C07: the same call on data with renamed classes."""
import numpy as np

import data
import drv_params as P
import drv_sampler as D
import env

sv = env.load_sv()
ORDER = [(-1, 1), (5, 7), (3, 100), (-7, -2), (1, 2), (0, 2), (-1, 0), (10, 11)]
SWAP = [(1, 0), (1, -1), (7, 5), (2, 1), (0, -3)]


def call(name, pc, X, y, seed):
    cls = P.ALL[name]
    np.random.seed(seed % 999)
    try:
        if name in P.NF:
            Xo, yo = cls(**pc).remove_noise(X.copy(), y.copy())
        else:
            Xo, yo = cls(**pc, random_state=int(seed % 1013)).sample(X.copy(), y.copy())
        return "", D.digest(np.asarray(Xo, dtype=float)), [D.qclip(v) for v in yo]
    except Exception as e:  # noqa
        return type(e).__name__, "", []


def run_case(t):
    name, seed = t["cls"], t["seed"]
    r = np.random.RandomState(seed % 2 ** 31)
    base = (0, 1) if r.rand() < 0.5 else (1, 0)
    kind = t.get("kind")
    info, X, y = data.dataset(seed, small=True, labels=base, kind=kind, ratio=1.0 if r.rand() < 0.12 else None,
                              layout=str(r.choice(["c", "c", "f"])))
    if name == "OversamplingDrivenUndersampling":
        info, X, y = data.dataset(seed, kind="n", small=True, ratio=float(r.uniform(2.2, 4)), layout="c", labels=base)
    pc = P.combos(name, P.ALL[name], r)
    if pc is None:
        pc = data.params(P.ALL[name], seed, light=True)
    e1, x1, y1 = call(name, pc, X, y, seed)
    out = []
    maps = [ORDER[r.randint(len(ORDER))]]
    if not t.get("single"):
        maps.append(SWAP[r.randint(len(SWAP))])
    for to in maps:
        y2 = np.where(y == 0, to[0], to[1])
        e2, x2, yo2 = call(name, pc, X, y2, seed)
        out.append(dict(op="relabel", cls=name, seed=seed, kind=info["kind"], params=D.params_repr(pc), **{"from": [0, 1]}, to=list(to), yin=[int(v) for v in y],
                        err1=e1, err2=e2, x1=x1, x2=x2, y1=y1, y2=yo2, extends=t["extends"]))
    return out


def run_roles(t):
    """the class statistics of a fresh object, and of one used before"""
    r = np.random.RandomState(t["seed"] % 2 ** 31)
    a, b = (ORDER + SWAP)[r.randint(len(ORDER + SWAP))]
    n = int(r.randint(1, 9))
    m = n if r.rand() < 0.4 else int(r.randint(1, 9))
    y = np.array([a] * n + [b] * m)
    r.shuffle(y)
    obj = [sv.SMOTE, sv.ADASYN, sv.noise_removal.TomekLinkRemoval, sv.undersampling.RandomUndersampling, sv.MulticlassOversampling][t["seed"] % 5]()
    if r.rand() < 0.3:
        obj.class_label_statistics(np.array([a, a, b]) if r.rand() < 0.5 else np.array([b, b, a]))
    e = dict(op="roles", cls=type(obj).__name__, seed=t["seed"], yin=[int(v) for v in y], err="", min=0, maj=0, nmin=0, nmaj=0)
    try:
        obj.class_label_statistics(y.astype(float) if r.rand() < 0.2 else y)
        e.update(min=int(obj.min_label), maj=int(obj.maj_label), nmin=int(obj.class_stats[obj.min_label]), nmaj=int(obj.class_stats[obj.maj_label]))
    except Exception as ex:  # noqa
        e["err"] = repr(ex)[:200]
    return [e]


def crash(task, why):
    return []

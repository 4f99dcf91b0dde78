"""Driver for C11: folding objects under operation sequences, in a scratch directory."""
import glob
import os
import shutil
import tempfile

import numpy as np

import data
import env

sv = env.load_sv()
from smote_variants.base import load_dict  # noqa: E402
from smote_variants.evaluation import Folding  # noqa: E402


def rows_of(F, X):
    """row numbers (1..) of fold rows; rows carry their number in the first feature"""
    F = np.asarray(F, dtype=float)
    out = []
    for row in F:
        k = int(round(row[0])) if np.isfinite(row[0]) else -1
        out.append(k + 1 if 0 <= k < len(X) and np.array_equal(np.asarray(X[k], dtype=float), row) else 0)
    return out


def project(fold, X):
    d = fold["fold_descriptor"]
    return dict(test=rows_of(fold["X_test"], X), train=rows_of(fold["X_train"], X), ytest=[int(v) for v in fold["y_test"]], ytrain=[int(v) for v in fold["y_train"]],
                desc=dict(repeat_idx=int(d.get("repeat_idx", -1)), fold_idx=int(d.get("fold_idx", -1)), split_idx=int(d.get("split_idx", -1)),
                          n_splits=int(d.get("n_splits", -1)), n_repeats=int(d.get("n_repeats", -1)), name=str(d.get("name")), db_n=int(d.get("db_n", -1)),
                          db_n_attr=int(d.get("db_n_attr", -1)), n_min=int(d.get("label_stats", {}).get("min_label", -1)),
                          n_maj=int(d.get("label_stats", {}).get("maj_label", -1)), imb=int(d.get("imbalance_ratio", -1) * 1000000)))


def run_case(t):
    seed = t["seed"]
    r = np.random.RandomState(seed % 2 ** 31)
    ns, nr = t["ns"], t["nr"]
    lmaj, lmin = data.LABELS[r.randint(len(data.LABELS))]
    nmin = int(r.randint(ns, ns + 7))
    nmaj = nmin + int(r.choice([0, 1, 4, 11]))
    d = int(r.randint(2, 4))
    y = r.permutation(np.array([lmaj] * nmaj + [lmin] * nmin))
    X = r.normal(size=(len(y), d))
    X[:, 0] = np.arange(len(y))
    if t.get("dtype") == "int":
        X = np.round(X).astype(int)
    name = ["db", "ds_2", "a-b"][seed % 3]
    ds = {"data": X, "target": y, "name": name}
    vp = {"n_repeats": nr, "n_splits": ns, "random_state": int(r.randint(100))}
    tmp = tempfile.mkdtemp(prefix="verif_fold_")
    evs = []
    grp = f"{seed}"

    def listing(via, folds):
        evs.append(dict(op="listing", grp=grp, via=via, seed=seed, ops=t["ops"], ser=t["ser"], y=[int(v) for v in y], d=d, ns=ns, nr=nr, name=name, err="",
                        folds=[project(f, X) for f in folds]))

    def fail(via, e):
        evs.append(dict(op="listing", grp=grp, via=via, seed=seed, ops=t["ops"], ser=t["ser"], y=[int(v) for v in y], d=d, ns=ns, nr=nr, name=name,
                        err=f"{type(e).__name__}: {e}"[:150], folds=[]))

    def mk(reset=False):
        return Folding(ds, serialization=t["ser"], cache_path=tmp, validator_params=dict(vp), reset=reset)

    try:
        # in memory, without any cache; the folds are collected first, as users do with list()
        listing("plain", list(Folding(ds, validator_params=dict(vp)).fold()))
        f = None
        for op in t["ops"]:
            if op == "construct":
                f = mk()
            elif op == "reset":
                f = mk(reset=True)
            elif op == "cache":
                f.cache_foldings()
            elif op == "memory":
                listing("memory", list(f.fold()))
            elif op == "files":
                listing("files", [load_dict(fn, t["ser"], ["X_train", "y_train", "X_test", "y_test"]) for fn in f.folding_files()])
            else:
                fs = sorted(glob.glob(os.path.join(tmp, name, "fold_*." + t["ser"])))
                if fs:
                    os.remove(fs[0] if op == "lose first" else fs[-1])
    except Exception as e:  # noqa
        fail("?", e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return evs

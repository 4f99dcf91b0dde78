"""Driver for C15: the scores of the real code for label and probability vectors."""
import numpy as np

import env

sv = env.load_sv()
from smote_variants.base import (calculate_all_scores, calculate_atoms, calculate_label_scores, calculate_prob_scores, prediction_labels,  # noqa: E402
                                 all_scores)

LAB = ["acc", "sens", "spec", "ppv", "npv", "fpr", "fdr", "fnr", "bacc", "gacc", "f1", "mcc", "l", "ltp", "lfp", "lfn", "ltn", "lp", "ln", "uc", "informedness",
       "markedness"]
PROB = ["p_top20", "brier", "log_loss", "auc"]
BAD = 2000000000


def q(v):
    if v is None:
        return []
    v = float(v)
    return [int(round(v * 1e6))] if np.isfinite(v) and abs(v) < 2000 else [BAD]


def take(s, names):
    return {k: q(s[k]) for k in names}


def atoms(s):
    return {k: int(s[k]) for k in ("tp", "fn", "tn", "fp")} | {k: int(s.get(k, -1)) for k in ("p", "n")}


def guarded(ev, f):
    try:
        f(ev)
        ev["err"] = ""
    except Exception as e:  # noqa
        ev["err"] = f"{type(e).__name__}: {e}"[:150]
    return ev


def run_case(t):
    op = t["op"]
    if op == "predict":
        p = np.array(t["p"]) / t["q"]
        return [guarded(dict(t), lambda ev: ev.update(pred=[int(v) for v in prediction_labels(p)]))]
    if op == "atoms":
        return [guarded(dict(t), lambda ev: ev.update(atoms=atoms(calculate_atoms(np.array(t["y"]), np.array(t["pred"]), t["m"]))))]
    if op == "scaled":
        return [guarded(dict(t), lambda ev: ev.update(s=take(calculate_label_scores({k: int(v) * 10 ** t["e"] for k, v in t["a"].items()}), LAB)))]
    if op == "labels":
        def f(ev):
            s = calculate_label_scores({k: int(v) for k, v in t["a"].items()})
            ev.update(s=take(s, LAB), atoms=atoms(s))
        return [guarded(dict(t), f)]
    if op == "prob":
        return [guarded(dict(t), lambda ev: ev.update(s=take(calculate_prob_scores(np.array(t["y"]), np.array(t["p"]) / t["q"], t["m"]), PROB)))]

    def g(ev):
        y = np.array(t["y"]).astype(float if t.get("f") else int)
        p = np.array(t["p"]) / t["q"]
        y0, p0 = y.copy(), p.copy()
        s = calculate_all_scores(y, p, t["m"]) if t["m"] == 0 or t.get("f") else calculate_all_scores(y, p)
        ev.update(s=take(s, LAB + PROB), atoms=atoms(s), complete=set(all_scores) <= set(s) and np.array_equal(y, y0) and np.array_equal(p, p0))
    return [guarded(dict(t), g)]


def run_cases(ts):
    return [e for t in ts["cases"] for e in run_case(t)]

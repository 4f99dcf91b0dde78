"""Driver for C22: constructs classes with the probed parameter values."""
import numpy as np

import data
import drv_params as P
import env

sv = env.load_sv()
BASE = {"OversamplingDrivenUndersampling": {"oversampler_specification": ("smote_variants", "SMOTE", {})}}


def attempt(f):
    try:
        f()
        return "accepted"
    except Exception as e:  # noqa
        return "ValueError" if isinstance(e, ValueError) else type(e).__name__


def simplex(opt, v):
    """simplex sampling options are resolved when sampling"""
    r = np.random.RandomState(3)
    X = np.vstack([r.normal(size=(14, 2)), r.normal(size=(6, 2)) + 1])
    y = np.array([0] * 14 + [1] * 6)
    outs = {attempt(lambda c=c: getattr(sv, c)(ss_params={"n_dim": 2, "simplex_sampling": "random", "within_simplex_sampling": "random",
                                                          "gaussian_component": None, opt: v}, random_state=1).sample(X, y))
            for c in ("SMOTE", "distance_SMOTE", "ProWSyn")}
    return outs.pop() if len(outs) == 1 else "mixed " + " ".join(sorted(outs))


def run_case(t):
    out = []
    for c in t["cases"]:
        p, v = c["p"], c["v"]
        if p == "hidden_range":
            out.append(dict(op="range", p="DSRBF.hidden_range", lo=v[0], hi=v[1], v=str(v), out=attempt(lambda: sv.DSRBF(hidden_range=tuple(v)))))
            continue
        cls, arg = p.split(".")
        if c["num"] or v is None:
            if cls not in P.ALL:
                continue
            k = P.ALL[cls]
            args = data.ctor_args(k)
            if arg not in args:
                continue
            if v is None:
                out.append(dict(op="none", p=p, v="None", out=attempt(lambda: k(**BASE.get(cls, {}), **{arg: None}))))
                continue
            isint = isinstance(args[arg], int)
            if isint and v % 1000:
                continue
            vals = [v // 1000] if v % 1000 == 0 else [v / 1000]
            if v % 1000 == 0 and not isint:
                vals.append(float(v / 1000))
            for x in vals:
                out.append(dict(op="num", p=p, v=v, out=attempt(lambda: k(**BASE.get(cls, {}), **{arg: x}))))
        else:
            if cls == "ss":
                out.append(dict(op="opt", p=p, v=v, out=simplex(arg, v)))
            elif cls == "Multiclass":
                out.append(dict(op="opt", p=p, v=v, out=attempt(lambda: sv.MulticlassOversampling(strategy=v))))
            else:
                k = P.ALL[cls]
                out.append(dict(op="opt", p=p, v=v, out=attempt(lambda: k(**BASE.get(cls, {}), **{arg: v}))))
    return out

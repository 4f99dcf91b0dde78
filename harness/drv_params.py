"""Driver for C06: parameter reports, rebuilding, grids."""
import copy
import json

import numpy as np

import data
import drv_sampler as D
import env

sv = env.load_sv()
import smote_variants.undersampling as us  # noqa: E402

ALL = dict(D.CLS)
NF = {c.__name__: c for c in sv.get_all_noisefilters()}
US = {c.__name__: c for c in (us.RandomUndersampling, us.OversamplingDrivenUndersampling)}
ALL.update(NF)
ALL.update(US)
NF_OPTS = {"TomekLinkRemoval": {"strategy": ["remove_majority", "remove_both"]}, "EditedNearestNeighbors": {"remove": ["both", "min", "maj"]}}
MODULE = {**{n: "smote_variants" for n in D.CLS}, **{n: "smote_variants.noise_removal" for n in NF}, **{n: "smote_variants.undersampling" for n in US}}


def flat(d, pre=""):
    """[[path, text]] of a parameter dictionary; None for a dictionary valued parameter is the empty dictionary"""
    out = []
    for k in sorted(d):
        v = d[k]
        if (k.endswith("_params") or k in ("gaussian_component",)) and v is None:
            v = {}
        if isinstance(v, dict):
            out += flat(v, f"{pre}{k}.")
        else:
            out.append([pre + str(k), D.params_repr(v)])
    return out


def grid_of(cls):
    raw = cls.parameter_combinations(raw=True)
    return raw if isinstance(raw, dict) else {}   # a class without a grid (SUNDO)


def combos(name, cls, r):
    if name in NF:
        pc = {k: v[r.randint(len(v))] for k, v in NF_OPTS.get(name, {}).items()}
        if "nn_params" in data.ctor_args(cls) and r.rand() < 0.4:
            pc["nn_params"] = {"metric": "precomputed", "metric_learning_method": "cov"} if r.rand() < 0.5 else {"metric": "manhattan"}
        if r.rand() < 0.5:
            pc["n_jobs"] = int(r.randint(1, 4))
        return pc
    if name == "RandomUndersampling":
        return {}
    if name == "OversamplingDrivenUndersampling":
        return {"oversampler_specification": ("smote_variants", ["SMOTE", "ADASYN"][r.randint(2)], {"random_state": int(r.randint(9))}),
                "mode": ["random", "farthest"][r.randint(2)]}
    return None


def behave(obj, name, X, y):
    try:
        if name in NF:
            Xo, yo = obj.remove_noise(X.copy(), y.copy())
        else:
            Xo, yo = obj.sample(X.copy(), y.copy())
        return D.digest(np.asarray(Xo, dtype=float), np.asarray(yo, dtype=float))
    except Exception as e:  # noqa
        return "raises " + type(e).__name__


def build(t):
    name, seed = t["cls"], t["seed"]
    cls = ALL[name]
    r = np.random.RandomState(seed % 2 ** 31)
    pc = combos(name, cls, r)
    args = data.ctor_args(cls)
    if pc is None:
        if t.get("comb") is not None:
            cs = cls.parameter_combinations()
            pc = copy.deepcopy(cs[t["comb"] % len(cs)])
        else:
            pc = data.params(cls, seed, gaussian=True)
            if "n_jobs" in args and r.rand() < 0.3:
                pc["n_jobs"] = 2
        if "ss_params" in args and r.rand() < 0.2 and t.get("comb") is None:
            pc["ss_params"] = {"n_dim": 2}
    if "random_state" in args or name in D.CLS:
        pc["random_state"] = int(seed % 997) if seed % 5 else 0
    # a default None stands for a resolved value; beta (ADASYN), pressure (MSYN): other names of proportion
    exp = {**{k: v for k, v in args.items() if v is not None and (name, k) not in (("ADASYN", "beta"), ("MSYN", "pressure"))}, **pc}
    ev = dict(op="build", cls=name, seed=seed, params=D.params_repr(pc), comb=t.get("comb") if t.get("comb") is not None else -1)
    keep = copy.deepcopy(pc)
    try:
        obj = cls(**pc)
    except Exception as e:  # noqa
        ev.update(err=f"{type(e).__name__}: {e}"[:200])
        return ev
    ev["err"] = ""
    gp = obj.get_params()
    ev["expected"] = flat(exp)
    ev["args"] = sorted({**args, **pc})
    ev["repnames"] = sorted(map(str, gp))
    ev["reported"] = flat(gp)
    gp0 = copy.deepcopy(gp)
    ev.update(rerr="", json="", rebuilt=[], rejson=[], byname=[], dig="", dig2="", dig3="", dig4="")
    ctor = {k: v for k, v in gp0.items() if k != "class_name"}
    o2 = o3 = o4 = None
    try:
        o2 = cls(**copy.deepcopy(gp0))
        ev["rebuilt"] = flat(o2.get_params())
        if name in NF:
            from smote_variants.base import instantiate_obj
            o4 = instantiate_obj((MODULE[name], name, copy.deepcopy(gp0)))
        else:
            from smote_variants.base import instantiate_obj
            o4 = instantiate_obj([MODULE[name], name, copy.deepcopy(gp0)])
        ev["byname"] = flat(o4.get_params())
        try:
            js = json.loads(json.dumps(gp0))
            o3 = cls(**js)
            ev["rejson"] = flat(o3.get_params())
        except TypeError as e:
            ev["json"] = str(e)[:100]
    except Exception as e:  # noqa
        ev["rerr"] = f"{type(e).__name__}: {e}"[:200]
    ev["after"] = flat(obj.get_params())
    if t.get("behave"):
        info, X, y = data.dataset(seed, small=True, kind="n", layout="c")
        np.random.seed(seed % 1000)
        ev["dig"] = behave(obj, name, X, y)
        ev["after"] = flat(obj.get_params())
        if o2 is not None and o4 is not None:
            np.random.seed(seed % 1000 + 1)
            ev["dig2"] = behave(o2, name, X, y)
            ev["dig4"] = behave(o4, name, X, y)
        if o3 is not None:
            ev["dig3"] = behave(o3, name, X, y)
    del ctor, keep
    return ev


def run_case(t):
    if t["op"] == "grid":
        cls = ALL[t["cls"]]
        raw = grid_of(cls)
        cs = cls.parameter_combinations()
        return [dict(op="grid", cls=t["cls"], seed=0, params="", sizes=[len(raw[k]) for k in sorted(raw)], n=len(cs),
                     distinct=len({D.params_repr(c) for c in cs}),
                     szs=[[k, len(raw[k])] for k in sorted(raw)], keysets=sorted({" ".join(sorted(c)) for c in cs}),
                     ingrid=all(set(c) <= set(raw) and all(any(D.params_repr(c[k]) == D.params_repr(v) for v in raw[k]) for k in c)
                                for c in cs[:3000]))]
    return [build(t)]


def crash(task, why):
    return []


def tasks(seed, per, grid, secs):
    ts = []
    rnd = np.random.RandomState(seed)
    for ci, n in enumerate(sorted(ALL)):
        cls = ALL[n]
        if hasattr(cls, "parameter_combinations"):
            ts.append(dict(op="grid", cls=n))
            total = 1
            for v in grid_of(cls).values():
                total *= len(v)
            if n in D.CLS:
                pick = range(total) if total <= grid else sorted(rnd.choice(total, grid, replace=False).tolist())
                ts += [dict(op="build", cls=n, seed=seed * 911 + 13 * c + ci, comb=int(c)) for c in pick]
        k = max(1, min(per, int(secs / (4 * data.SLOW.get(n, 0.01)))))
        slow = data.SLOW.get(n, 0.01) > 3
        ts += [dict(op="build", cls=n, seed=seed * 7919 + 101 * ci + 7 * j, behave=(j < k and not slow)) for j in range(per)]
    ts.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.01) if t.get("behave") else 0)
    return ts

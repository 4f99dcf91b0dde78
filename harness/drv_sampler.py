"""Driver of the oversamplers: runs one sampler on one dataset through one entry point and
records the observable behaviour as one event (projection onto the state of Sampler.tla)."""
import copy
import fractions
import hashlib
import traceback

import numpy as np

import env
import data

sv = env.load_sv()
CLS = {c.__name__: c for c in sv.get_all_oversamplers()}
CLS["NoSMOTE"] = sv.NoSMOTE


def names():
    return sorted(CLS)


def digest(*arrs):
    h = hashlib.sha1()
    for a in arrs:
        a = np.ascontiguousarray(a)
        h.update(str(a.shape).encode())
        if a.dtype.kind in "iub":
            a = a.astype(np.int64)
        else:
            a = a.astype(np.float64) + 0.0
        h.update(a.tobytes())
    return h.hexdigest()[:16]


def rational(p):
    f = fractions.Fraction(p).limit_denominator(1000)
    return [f.numerator, f.denominator]


def qclip(v):
    return int(max(-2e9, min(2e9, v))) if np.isfinite(v) else -2000000000


def src_map(X, Xo, n, tol):
    """output row -> input row among the first n output rows"""
    src = [0] * len(Xo)
    if X.shape[1] != Xo.shape[1]:
        return src
    scale = np.maximum(np.abs(X).max(axis=0), 1e-300)
    used = set()
    m = min(n, len(Xo))
    same = np.array([np.all(np.abs(Xo[i] - X[i]) <= tol * scale) for i in range(m)]) if m else []
    for i in range(m):
        if same[i]:
            src[i] = i + 1
            used.add(i)
    for i in range(m):
        if not same[i]:
            c = [j for j in np.where(np.all(np.abs(X - Xo[i]) <= tol * scale, axis=1))[0] if j not in used]
            if c:
                src[i] = int(c[0]) + 1
                used.add(c[0])
    return src


def box_rows(P, S):
    """quantised position of each row of S relative to the bounding box of P: [least, greatest] over the
    coordinates, the box being [0, 1000000]"""
    lo, hi = P.min(axis=0), P.max(axis=0)
    mag = np.maximum(np.maximum(np.abs(lo), np.abs(hi)), 1e-12)
    w = np.maximum(hi - lo, 1e-6 * mag)
    out = []
    for s in S:
        q = (s - lo) / w * 1e6
        # floating point noise of the coordinates themselves
        eps = mag * 1e-9 / w * 1e6
        over = np.where(hi > lo, q - 1e6, (s - lo) / w * 1e6)
        a = float(np.min(np.where(q < 0, np.minimum(q + eps, 0), 0)))
        b = float(np.max(np.where(over > 0, np.maximum(over - eps, 0), 0)))
        out.append([qclip(np.floor(a)), qclip(1e6 + np.ceil(b))])
    return out


def params_repr(p):
    if isinstance(p, dict):
        return "{" + ",".join(f"{k}:{params_repr(p[k])}" for k in sorted(p)) + "}"
    if isinstance(p, (list, tuple)):
        return "[" + ",".join(params_repr(v) for v in p) + "]"
    if isinstance(p, np.ndarray):
        return "nd" + params_repr(p.tolist())
    if isinstance(p, (bool, np.bool_)):
        return str(bool(p))
    if isinstance(p, (int, np.integer)):
        return str(int(p))
    if isinstance(p, (float, np.floating)):
        return repr(float(p)).replace(".0", "") if float(p) == int(p) else repr(float(p))
    if isinstance(p, (np.random.RandomState,)):
        return "RandomState"
    return str(p)


def call(obj, entry, X, y):
    if entry == "fit_resample":
        return obj.fit_resample(X, y)
    if entry == "timing":
        return obj.sample_with_timing(X, y)
    return obj.sample(X, y)


def run_case(t):
    """t: cls, seed, (kind, layout, labels, entry overrides) -> [event]"""
    cls = CLS[t["cls"]]
    seed = t["seed"]
    info, X, y = data.dataset(seed, kind=t.get("kind"), small=True, layout=t.get("layout"), labels=t.get("labels"), ratio=t.get("ratio"))
    r = np.random.RandomState(seed % (2 ** 31) + 1)
    pc = data.params(cls, seed, gaussian=t.get("gaussian", False))
    pc.update(t.get("params", {}))
    entry = t.get("entry") or str(r.choice(["sample", "sample", "sample", "fit_resample", "timing"]))
    X0, y0 = X.copy(), y.copy()
    pc_in = copy.deepcopy(pc)
    ev = {"op": "sample", "cls": t["cls"], "seed": seed, "entry": entry, "kind": info["kind"], "layout": info["layout"], "params": params_repr(pc),
          "yin": [int(v) for v in y], "din": int(X.shape[1]), "hasprop": "proportion" in data.ctor_args(cls) or t["cls"] in ("MWMOTE",),
          "gauss": bool(pc.get("ss_params", {}).get("gaussian_component")) if "ss_params" in pc else False}
    np.random.seed(12345 + seed % 1000)
    try:
        obj = cls(**pc, random_state=int(seed % 10007) if seed % 5 else 0)
    except Exception as e:  # noqa
        ev.update(err=type(e).__name__, errmsg=str(e)[:120], where="ctor", yout=[], src=[], srcx=[], prop=[0, 0])
        return [finish(ev)]
    prop = getattr(obj, "proportion", None)
    ev["prop"] = [0, 0]
    if isinstance(prop, (int, float)):
        ev["prop"] = rational(prop)
        nmin, nmaj = info["n_min"], info["n_maj"]
        f = fractions.Fraction(*ev["prop"])
        if int((nmaj - nmin) * prop) != int((nmaj - nmin) * f):   # rounding of the float product: no exact expectation
            ev["prop"] = [0, 0]
    ev["hasprop"] = isinstance(prop, (int, float)) and "proportion" in data.ctor_args(cls)
    gp0 = params_repr(obj.get_params())
    try:
        Xo, yo = call(obj, entry, X, y)
        ev["err"] = ""
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "smote_variants" in f.filename]
        ev.update(err=type(e).__name__, errmsg=str(e)[:120], where=loc[-1].name if loc else "?")
        Xo = None
    ev["xin_same"] = bool(np.array_equal(X, X0) and X.dtype == X0.dtype)
    ev["yin_same"] = bool(np.array_equal(y, y0) and y.dtype == y0.dtype)
    ev["pc_same"] = params_repr(pc) == params_repr(pc_in)
    ev["gp_same"] = params_repr(obj.get_params()) == gp0
    if Xo is None:
        ev.update(yout=[], src=[], srcx=[])
        return [finish(ev)]
    ev["types"] = isinstance(Xo, np.ndarray) and isinstance(yo, np.ndarray)
    Xo_, yo_ = np.asarray(Xo), np.asarray(yo)
    ev["ndim"] = [int(Xo_.ndim), int(yo_.ndim)]
    ev["nrows"] = [int(len(Xo_)), int(len(yo_))]
    ev["alias"] = bool(np.shares_memory(Xo_, X) or np.shares_memory(yo_, y))
    ev["numeric"] = bool(Xo_.dtype.kind in "fiu")
    if Xo_.ndim != 2 or yo_.ndim != 1 or len(Xo_) != len(yo_) or not ev["numeric"]:
        ev.update(yout=[], src=[], srcx=[], dout=-1, finite=False, intlab=False)
        return [finish(ev)]
    ev["dout"] = int(Xo_.shape[1])
    ev["finite"] = bool(np.isfinite(Xo_.astype(float)).all())
    ev["intlab"] = bool(np.all(np.asarray(yo_, dtype=float) == np.round(np.asarray(yo_, dtype=float))))
    ev["yout"] = [qclip(v) for v in yo_]
    Xf = np.asarray(X0, dtype=float)
    Xof = Xo_.astype(float)
    if X0.dtype == np.float32:
        ev["srcx"] = src_map(Xf, Xof, len(X), 1e-6)
    else:
        ev["srcx"] = src_map(Xf, Xof, len(X), 0.0)
    ev["src"] = ev["srcx"] if ev["srcx"][:len(X)] == list(range(1, len(X) + 1)) else src_map(Xf, Xof, len(X), 1e-6)
    # geometry
    n = len(X)
    if ev["dout"] == ev["din"] and t.get("geom", True):
        vals, cnt = np.unique(y0, return_counts=True)
        if len(vals) == 2:
            minl = vals[0] if cnt[0] < cnt[1] else vals[1]
            S = Xof[n:] if len(Xof) > n else Xof[:0]
            ev["boxmin"] = box_rows(Xf[y0 == minl], S) if len(S) else []
            ev["boxall"] = box_rows(Xf, S) if len(S) else []
    # transform of new data
    try:
        Z = Xf + 0.25
        tz = np.asarray(obj.preprocessing_transform(Z.copy()))
        tx = np.asarray(obj.preprocessing_transform(Xf.copy()))
        ev["tdim"] = int(tz.shape[1]) if tz.ndim == 2 else -1
        ev["trows"] = int(tz.shape[0])
        ev["tident"] = bool(tz.shape == Z.shape and np.array_equal(tz, Z))
        # images of the training rows that occur in the output, and rows of the output being images
        if tx.ndim == 2 and tx.shape[1] == Xof.shape[1]:
            sc = np.maximum(np.abs(Xof).max(axis=0), 1e-12)
            ev["timg"] = [int(np.any(np.all(np.abs(tx - row) <= 1e-5 * sc, axis=1))) for row in Xof]
        else:
            ev["timg"] = []
        ev["terr"] = ""
    except Exception as e:  # noqa
        ev.update(tdim=-1, trows=-1, tident=False, timg=[], terr=type(e).__name__)
    return [finish(ev)]


DEFAULTS = {"errmsg": "", "where": "", "xin_same": True, "yin_same": True, "pc_same": True, "gp_same": True, "types": True, "ndim": [2, 1],
            "nrows": [0, 0], "alias": False, "numeric": True, "dout": -1, "finite": True, "intlab": True, "boxmin": [], "boxall": [],
            "tdim": -1, "trows": -1, "tident": False, "timg": [], "terr": ""}


def finish(ev):
    for k, v in DEFAULTS.items():
        ev.setdefault(k, v)
    return ev


def crash(task, why):
    return [finish({"op": "sample", "cls": task["cls"], "seed": task["seed"], "entry": "sample", "kind": "?", "layout": "?", "params": "?", "yin": [], "din": 0,
                    "hasprop": False, "gauss": False, "prop": [0, 0], "err": "crash", "errmsg": why, "where": why, "yout": [], "src": [], "srcx": []})]


def tasks(seed, full, seconds, only=None, **kw):
    """case list over the registry"""
    out = []
    for ci, c in enumerate(names()):
        if only is not None and c not in only:
            continue
        for k in range(data.budget(c, full, seconds)):
            out.append(dict(cls=c, seed=(seed * 1000003 + ci * 4099 + k * 31 + 17) % (2 ** 31), **kw))
    # expensive ones first and spread
    out.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.01))
    return out

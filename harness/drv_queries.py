"""Driver for C18."""
import inspect
import random

import env

sv = env.load_sv()
from smote_variants.queries._runtimes import runtimes  # noqa: E402
from smote_variants.base import OverSampling  # noqa: E402

CAT = {getattr(OverSampling, a): a[4:] for a in dir(OverSampling) if a.startswith("cat_")}


def registry():
    cs = sv.get_all_oversamplers()
    rt = sorted({runtimes.get(c.__name__, float("inf")) for c in cs})
    out = []
    for c in cs:
        sig = inspect.signature(c).parameters
        gp = c().get_params()
        ss = {"has": False, "within": "none", "gauss": False, "dim": 0}
        if "ss_params" in sig:
            # the effective default parameters of the object
            p = gp["ss_params"]
            ss = {"has": True, "within": str(p["within_simplex_sampling"]), "gauss": bool(p["gaussian_component"]), "dim": int(p["n_dim"])}
        out.append({"name": c.__name__, "categories": [CAT[k] for k in c.categories], "params": sorted(set(gp) & {"proportion"} | set(sig) & {"proportion"}),
                    "rank": rt.index(runtimes.get(c.__name__, float("inf"))) + 1, "ss": ss})
    return out


def ask(q, form):
    n = q["n"]
    if q["kind"] == "all":
        return sv.get_all_oversamplers() if n == -1 and form else sv.get_all_oversamplers(n_quickest=n)
    if q["kind"] == "proportion":
        return sv.get_proportion_oversamplers(n_quickest=n)
    if q["kind"] == "metric_learning":
        return sv.get_metric_learning_oversamplers(n_quickest=n)
    if q["kind"] == "multiclass":
        return sv.get_multiclass_oversamplers(strategy=["eq_1_vs_many_successive", "equalize_1_vs_many"][form], n_quickest=n)
    f = q["filter"]
    kw = {"n_quickest": n}

    def val(s):
        return s[0] if len(s) == 1 and form else list(s)
    if f["use_within"]:
        kw["within_simplex_sampling"] = val(f["within"])
    if f["use_exclude"]:
        kw["exclude_within_simplex_sampling"] = val(f["exclude"])
    if f["use_gauss"]:
        kw["with_gaussian_component"] = f["gauss"]
    if f["use_dim"]:
        kw["n_dim_range"] = val(f["dim"])
    return sv.get_simplex_sampling_oversamplers(**kw)


def guarded(ev, f):
    try:
        f(ev)
    except Exception as e:  # noqa
        ev["err"] = f"{type(e).__name__}: {e}"[:150]
    return ev


def run_case(t):
    evs = []
    try:
        evs.append({"op": "registry", "err": "", "reg": registry()})
    except Exception as e:  # noqa
        return [{"op": "registry", "err": f"{type(e).__name__}: {e}"[:150], "reg": []}]
    for i, q in enumerate(t["queries"]):
        def f(ev, q=q, i=i):
            got = ask(q, i % 2)
            ev["got"] = [c.__name__ for c in got]
            got.reverse() if i % 3 else got.clear()   # the caller owns the list
            ev["again"] = [c.__name__ for c in ask(q, i % 2)]
        evs.append(guarded({"op": "query", "err": "", "q": q, "got": [], "again": []}, f))
    evs.append(guarded({"op": "filters", "err": "", "got": []}, lambda ev: ev.update(got=[c.__name__ for c in sv.get_all_noisefilters()])))
    r = random.Random(t["seed"])
    allc = sv.get_all_oversamplers()
    for k in range(t["combs"]):
        cs = r.sample(allc, r.randint(1, 4))
        nmax = r.choice([0, 1, 2, 5, 5, 13, 100, 10000])
        seed = r.randint(0, 1000)

        def f(ev, cs=cs, nmax=nmax, seed=seed):
            a = sv.generate_parameter_combinations(cs, n_max_comb=nmax, result_format="dict", random_seed=seed)
            b = sv.generate_parameter_combinations(cs, n_max_comb=nmax, result_format="smote_variants", random_seed=seed)
            ev["repro"] = [x[2] for x in b] == a
            ev["format"] = all(isinstance(x, tuple) and len(x) == 3 and x[0] == "smote_variants" and x[1] == x[2]["class_name"] for x in b) \
                and all(isinstance(x, dict) for x in a)
            # split by class in order
            pos = 0
            ev["parts"] = []
            ev["order"] = True
            for c in cs:
                grid = [str(sorted(map(str, c(**p).get_params().items()))) for p in c.parameter_combinations()]
                where = {g: i + 1 for i, g in enumerate(grid)}
                part = []
                while pos < len(a) and a[pos]["class_name"] == c.__name__:
                    part.append(where.get(str(sorted(map(str, a[pos].items()))), 0))
                    pos += 1
                ev["parts"].append((c.__name__, len(grid), part))
            ev["order"] = pos == len(a)
        ev = guarded({"op": "combinations", "err": "", "nmax": nmax, "seed": seed, "classes": [c.__name__ for c in cs], "order": True, "repro": True, "format": True,
                      "got": [], "avail": 0, "parts": []}, f)
        parts = ev.pop("parts")
        if ev["err"] or not parts:
            evs.append(ev)
        for name, avail, got in parts:
            evs.append(dict(ev, cls=name, avail=avail, got=got))
    return evs

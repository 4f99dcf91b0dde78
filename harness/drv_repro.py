"""Driver for C05: replays the scenarios of ReproMC.tla on a sampler."""
import random

import numpy as np

import data
import drv_sampler as D
import env

sv = env.load_sv()


def streams(obj, seen=None, out=None, path="", depth=0):
    """all random streams owned by the object"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 4:
        return out
    seen.add(id(obj))
    if isinstance(obj, np.random.RandomState):
        if obj is not np.random.mtrand._rand:
            out[path] = obj
    elif isinstance(obj, dict):
        for k, v in obj.items():
            streams(v, seen, out, f"{path}.{k}", depth + 1)
    elif isinstance(obj, (list, tuple)):
        for k, v in enumerate(obj):
            streams(v, seen, out, f"{path}.{k}", depth + 1)
    elif hasattr(obj, "__dict__") and not isinstance(obj, type) and type(obj).__module__.startswith("smote_variants"):
        for k, v in vars(obj).items():
            streams(v, seen, out, f"{path}.{k}", depth + 1)
    return out


class Obj:
    def __init__(self, cls, pc, rs):
        self.passed = rs if isinstance(rs, np.random.RandomState) else None
        self.obj = cls(**pc, random_state=rs)
        self.init = {k: v.get_state() for k, v in streams(self.obj).items()}

    def rewind(self):
        for k, v in streams(self.obj).items():
            if k in self.init:
                v.set_state(self.init[k])

    def sample(self, X, y):
        p0 = self.passed.get_state() if self.passed is not None else None
        try:
            Xo, yo = self.obj.sample(X.copy(), y.copy())
            dig = D.digest(np.asarray(Xo, dtype=float), np.asarray(yo, dtype=float))
        except Exception as e:  # noqa
            dig = "raises " + type(e).__name__
        moved = True
        if p0 is not None:
            p1 = self.passed.get_state()
            moved = not (np.array_equal(p0[1], p1[1]) and p0[2:] == p1[2:])
        return dig, moved


def perturb(r):
    np.random.seed(r.randint(2 ** 31))
    np.random.normal(size=int(r.randint(1, 9)))
    random.seed(int(r.randint(2 ** 31)))


def run_case(t):
    """t: cls, seed, scenario, pas -> list of events"""
    cls = D.CLS[t["cls"]]
    seed = t["seed"]
    info, X1, y1 = data.dataset(seed, small=True, kind=t.get("kind"))
    _, X2, y2 = data.dataset(seed + 1, small=True)
    D_ = {"d1": (X1, y1), "d2": (X2, y2)}
    pc = data.params(cls, seed, light=True, gaussian=True)
    pc.update(t.get("params", {}))
    pc2 = dict(pc)
    if "n_jobs" in data.ctor_args(cls):
        pc2["n_jobs"] = 2
    r = np.random.RandomState((seed * 3 + t["pas"] * 977 + 5) % 2 ** 31)
    perturb(r)
    s = int(seed % 10007) if seed % 5 else 0
    grp = f"{t['cls']}|{seed}|{D.params_repr(pc)}"
    evs = [] if t["pas"] else [dict(op="begin", grp=grp)]
    kinds = t.get("kinds", ["int"])
    for rk in kinds:
        mk = (lambda: s) if rk == "int" else (lambda: np.random.RandomState(s))
        objs = {}
        rnd = False
        if rk == "rs":
            a = Obj(cls, pc, s).sample(X1, y1)[0]
            b = Obj(cls, pc, s + 1).sample(X1, y1)[0]
            rnd = a != b
        for o, p in (("A", pc), ("B", pc2)):
            objs[o] = Obj(cls, p, mk())
            evs.append(dict(op="construct", o=o + rk, grp=grp, rk=rk))
        for act, o, d in t["scenario"]:
            if act == "sample":
                dig, moved = objs[o].sample(*D_[d])
                evs.append(dict(op="sample", o=o + rk, d=d, dig=dig, rk=rk, moved=moved, random=rnd and d == "d1", grp=grp))
            elif act == "rewind":
                objs[o].rewind()
                evs.append(dict(op="rewind", o=o + rk, grp=grp, rk=rk))
            elif act == "perturb":
                perturb(r)
                evs.append(dict(op="perturb", grp=grp, rk=rk))
            else:
                try:
                    oth = sv.SMOTE(random_state=None) if r.rand() < 0.5 else cls(**pc, random_state=s + 5)
                    oth.sample(*D_["d2"])
                except Exception:  # noqa
                    pass
                evs.append(dict(op="other", grp=grp, rk=rk))
    for e in evs:
        e.update(cls=t["cls"], seed=seed, scenario=t["scenario"], pas=t["pas"])
    return evs


def crash(task, why):
    return []

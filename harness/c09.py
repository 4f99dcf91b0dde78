"""C09: multiclass oversampling."""
import numpy as np

import core
import drv_multi as M

STR = ["eq_1_vs_many_successive", "equalize_1_vs_many"]


def project(e):
    return {k: e[k] for k in ("cls", "seed", "strategy", "sizes", "err", "errmsg")} | {
        "in": {str(v): e["yin"].count(v) for v in set(e["yin"])}, "out": {str(v): e["yout"].count(v) for v in set(e["yout"])}}


def run(chk):
    vecs = chk.behaviours("MulticlassMC")
    vecs.sort()
    chk.cov["size_vectors"] = len(vecs)
    ts = []
    for i, v in enumerate(vecs):
        for s in STR:
            ts.append(dict(cls="SMOTE", seed=chk.seed * 100003 + i, sizes=v, strategy=s))
            if i % 4 == chk.seed % 4:
                ts.append(dict(cls="distance_SMOTE", seed=chk.seed * 100003 + i + 50000, sizes=v, strategy=s))
    r = np.random.RandomState(chk.seed)
    for j in range(260 if not chk.thorough else 4000):
        k = int(r.randint(2, 7))
        v = [int(x) for x in r.randint(1, 40, size=k)]
        if r.rand() < 0.4:   # ties
            v = [int(r.choice([3, 5, 12])) for _ in range(k)]
        cls = [M.EXACT, M.LOOSE][int(r.rand() < 0.25)]
        ts.append(dict(cls=cls[r.randint(len(cls))], seed=int(chk.seed * 100003 + 70000 + j), sizes=v, strategy=STR[j % 2], sep=bool(r.rand() < 0.8)))
    evs = [e for x in chk.drive("drv_multi", "run_case", ts) for e in x]
    chk.log(len(evs), "calls recorded")
    bad = chk.validate("MulticlassTrace", evs)
    chk.report(bad, project)
    for e in evs[:800:200]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

"""C12: sampling jobs and the evaluations built on them."""
import random

import core
import drv_job


def project(e):
    return {k: e[k] for k in ("cfg", "seed", "name", "err", "xtrain", "xtest", "error", "evals")}


def run(chk):
    cfgs = sorted(chk.behaviours("SamplingJobMC"), key=str)
    rnd = random.Random(chk.seed)
    chk.cov["configurations"] = len(cfgs)
    ts = []
    # every (oversampler behaviour, scaler, source, store, mode), classifier behaviours rotating; every configuration when thorough
    groups = {}
    for c in cfgs:
        groups.setdefault(tuple(v for k, v in sorted(c.items()) if k != "cl"), []).append(c)
    for j, g in enumerate(groups.values()):
        for c in (g if chk.thorough else [rnd.choice(g)]):
            ts.append(dict(cfg=c, seed=chk.seed * 7919 + j * 13 + len(ts)))
    ok = [c for c in cfgs if c["os"] == "ok" and c["mode"] == "execute"]
    for rep in range(20 if chk.thorough else 3):
        for n in drv_job.REAL:
            if n == "E_SMOTE" and rep:
                continue
            ts.append(dict(cfg=rnd.choice(ok), seed=chk.seed * 104729 + len(ts), real=n))
    evs = [e for x in chk.drive("drv_job", "run_case", ts) for e in x]
    chk.log(len(evs), "jobs recorded")
    chk.report(chk.validate("SamplingJobTrace", evs), project)
    chk.cov["oversamplers"] = len({e["name"] for e in evs})
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

"""C20: metric tensor neighbour search."""
import random

import core

KINDS = ["given", "none", "id", "cov", "cov_min", "ITML", "LSML", "NCA", "rf", "MI_weighted", "gmean"]

SLOW = ["AMSCO", "DSRBF", "GASMOTE"]      # half a minute per call


def project(e):
    return {k: e[k] for k in e if k in ("op", "cfg", "seed", "err", "base", "cand", "tensor", "k", "ids", "dist", "r2", "kind", "equal", "psd", "cls", "clause", "why")}


def run(chk):
    chk.model("MetricNNMC", cfg="MetricNNMC_thorough" if chk.thorough else "MetricNNMC")
    chk.model_fails("MetricNNMC", "MetricNNUnguarded", "<>Finishes")
    rnd = random.Random(chk.seed)
    cfgs = sorted(chk.behaviours("MetricNNGen"), key=str)
    rnd.shuffle(cfgs)
    q = [dict(cfg=c, seed=chk.seed * 7919 + i) for i, c in enumerate(cfgs * 8 if chk.thorough else cfgs[:3000])]
    tens = [dict(kind=k, seed=chk.seed * 31 + i) for k in KINDS for i in range(60 if chk.thorough else 3 if k not in ("given", "none", "id", "cov", "cov_min") else 8)]
    names = chk.drive("drv_metricnn", "list_samplers", [{}])[0]
    smp = [dict(cls=c, seed=chk.seed * 101 + i, jobs=i == 0) for c in names if chk.thorough or c not in SLOW for i in range(20 if chk.thorough else 1)]
    evs = [e for x in chk.drive("drv_metricnn", "run_query", q) for e in x]
    evs += [e for x in chk.drive("drv_metricnn", "run_tensor", tens) for e in x]
    evs += [e for x in chk.drive("drv_metricnn", "run_sampler", smp) for e in x]
    chk.cov["queries"], chk.cov["tensors"], chk.cov["samplers"] = len(q), len(tens), len(names)
    chk.log(len(evs), "events recorded")
    chk.report(chk.validate("MetricNNTrace", evs, per_shard=200), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

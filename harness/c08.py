"""C08: the noise filters remove exactly what their rules name."""
import json
import os

import numpy as np

import core
import drv_noise as D


def project(e):
    return {k: e[k] for k in ("name", "opt", "metric", "X", "y", "keep", "err")}


def run(chk):
    r = np.random.RandomState(chk.seed)
    n, ncfg = (7, 6) if not chk.thorough else (9, 12)
    cfgs = [D.points(r, n if k % 3 else n - 2, 1 + k % 3, hi=40 if k % 2 else 300).tolist() for k in range(ncfg)]
    fn = os.path.join(chk.work, "configs.json")
    json.dump(cfgs, open(fn, "w"))
    cases = chk.behaviours("NoiseFilterMC", env_vars={"CONFIGS": fn}, workers=8)
    want = sum(2 ** len(c) - 2 for c in cfgs)
    if len(cases) != want:
        raise core.MachineryError(f"{len(cases)} of {want} labelings generated")
    # (order preserving) label encodings; the swap of roles on ties follows the label order
    tasks = [dict(c, X=cfgs[c["c"] - 1], labels=[(0, 1), (-1, 1), (5, 7)][i % 3]) for i, c in enumerate(cases)]
    evs = [e for res in chk.drive("drv_noise", "replay", tasks) for e in res]
    chk.log(len(cases), "labelings,", len(evs), "calls replayed")
    bad = [(e, ["replayed behaviour: rows kept"]) for e in evs if sorted(e["keep"]) != sorted(e["expected"]) or e["err"]]
    chk.cov["traces_validated_against_impl"] += len(evs)
    m = 160 if not chk.thorough else 3000
    rnd = [e for res in chk.drive("drv_noise", "random_case", [{"seed": chk.seed * 100003 + i} for i in range(m)]) for e in res]
    bad += chk.validate("NoiseFilterTrace", rnd)
    # the replayed ones are judged by the trace specification, too (order, pairing, purity)
    bad += chk.validate("NoiseFilterTrace", evs[::3])
    chk.report(bad, project)
    chk.sample(project(evs[0]))
    chk.sample(project(rnd[-1]))
    chk.cov["labelings"] = len(cases)
    chk.cov["random_calls"] = len(rnd)


if __name__ == "__main__":
    core.main(run)

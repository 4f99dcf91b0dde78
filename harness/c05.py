"""C05: reproducibility, free of hidden state."""
import random

import core
import data
import drv_repro as R
import drv_sampler as D


def project(e):
    return {k: e.get(k) for k in ("cls", "seed", "grp", "scenario", "op", "o", "d", "rk", "pas", "dig")}


def run(chk):
    scen = chk.behaviours("ReproMC")
    scen.sort(key=lambda s: (len(s), str(s)))
    chk.log(len(scen), "scenarios")
    chk.cov["scenarios"] = len(scen)
    full, secs = (8, 6) if not chk.thorough else (120, 90)
    rnd = random.Random(chk.seed)
    # the core scenarios: equal objects, rewound object after other data, disturbance in between
    core_ = [s for s in scen if s in (
        [["sample", "A", "d1"], ["perturb", "", ""], ["sample", "B", "d1"]],
        [["sample", "A", "d1"], ["sample", "A", "d2"], ["rewind", "A", ""], ["sample", "A", "d1"]],
        [["sample", "A", "d1"], ["rewind", "A", ""], ["sample", "A", "d2"], ["sample", "B", "d2"]],
        [["sample", "A", "d1"], ["other", "", ""], ["sample", "B", "d1"]],
        [["sample", "A", "d1"], ["sample", "A", "d1"], ["sample", "B", "d1"], ["sample", "B", "d1"]])]
    assert len(core_) == 5, len(core_)
    ts = []
    for ci, c in enumerate(D.names()):
        if c == "DEAGO" and not chk.thorough:
            continue
        n = max(1, min(full, int(secs / (6 * data.SLOW.get(c, 0.01)))))
        if c == "DEAGO":
            n = 2
        for k in range(n):
            if k % 2 == 0:
                s = core_[(k // 2 + ci + chk.seed) % len(core_)]
            else:
                s = scen[rnd.randrange(len(scen))]
            ts.append(dict(cls=c, seed=(chk.seed * 1000003 + ci * 4099 + k * 31 + 7) % (2 ** 31), scenario=s,
                           kinds=["int", "rs"] if k % 2 == 0 and (n > 1) else ["int"]))
    ts.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.01))
    import os
    os.environ["VERIF_HASHSEED"] = "0"
    first = chk.drive("drv_repro", "run_case", [dict(t, pas=0) for t in ts], crash_event=R.crash)
    # once more in other processes: other hash seed, other order, other disturbances; only the shorter histories
    idx = [i for i, t in enumerate(ts) if data.SLOW.get(t["cls"], 0.01) < 1.5 or chk.thorough]
    idx = idx[::-1]
    os.environ["VERIF_HASHSEED"] = "4711"
    second = dict(zip(idx, chk.drive("drv_repro", "run_case", [dict(ts[i], pas=1) for i in idx], crash_event=R.crash)))
    groups = [first[i] + second.get(i, []) for i in range(len(ts)) if first[i]]
    chk.log(sum(map(len, groups)), "events recorded")
    bad = chk.validate("ReproTrace", groups)
    chk.report(bad, project)
    for g in groups[:400:100]:
        chk.sample([project(e) for e in g])
    chk.cov["classes"] = len({t["cls"] for t in ts})
    chk.cov["histories"] = len(groups)


if __name__ == "__main__":
    core.main(run)

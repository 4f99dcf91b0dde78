"""C07: class roles follow the counts."""
import re
import os

import core
import data
import drv_params as P


def project(e):
    return {k: e[k] for k in ("op", "cls", "seed", "kind", "params", "from", "to", "err1", "err2", "yin", "min", "maj", "err") if k in e}


def keeps():
    """KeepsInput of SamplerContract.tla"""
    s = open(os.path.join(core.SPEC, "SamplerContract.tla")).read()
    ext = set(re.findall(r'"(\w+)"', s[s.index("Extensive =="):s.index("(* also keep")]))
    return ext | {"NoSMOTE", "ADOMS", "LLE_SMOTE", "MDO", "MSMOTE", "SMOBD", "ASMOBD", "DBSMOTE", "SMOTEWB", "SYMPROD"}


def run(chk):
    chk.model("RelabelMC")
    full, secs = (22, 8) if not chk.thorough else (300, 100)
    ki = keeps()
    ts = []
    for ci, c in enumerate(sorted(P.ALL)):
        if c == "DEAGO" and not chk.thorough:
            continue
        for k in range(max(1, min(full, int(secs / (3 * data.SLOW.get(c, 0.01)))))):
            ts.append(dict(cls=c, seed=(chk.seed * 1000003 + ci * 4099 + k * 31 + 5) % 2 ** 31, extends=c in ki,
                           single=data.SLOW.get(c, 0) > 3))
    ts.sort(key=lambda t: -data.SLOW.get(t["cls"], 0.01))
    evs = [e for x in chk.drive("drv_relabel", "run_case", ts, crash_event=lambda t, w: []) for e in x]
    roles = [dict(cls="roles", seed=chk.seed * 7717 + k) for k in range(300 if not chk.thorough else 3000)]
    evs += [e for x in chk.drive("drv_relabel", "run_roles", roles) for e in x]
    chk.log(len(evs), "pairs of calls recorded")
    bad = chk.validate("RelabelTrace", evs)
    chk.report(bad, project)
    for e in evs[:800:200]:
        chk.sample(project(e))
    chk.cov["classes"] = len({e["cls"] for e in evs})


if __name__ == "__main__":
    core.main(run)

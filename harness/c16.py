"""C16: evaluations in all execution modes."""
import random

import core


def project(e):
    r = {k: e[k] for k in ("op", "seed", "cfg", "err", "wrong") if k in e}
    if e["op"] == "results":
        r.update(want=len(e["want"]), served=len(e["served"]))
    return r


def crash(t, why):
    return [dict(op="results", seed=t["seed"], cfg=t["cfg"], err="no termination: " + why, want=[], served=[], wrong=[])]


def run(chk):
    chk.model("EvaluationMC", cfg="EvaluationMC_thorough" if chk.thorough else "EvaluationMC")
    cfgs = sorted(chk.behaviours("EvaluationGen"), key=str)
    rnd = random.Random(chk.seed)
    rnd.shuffle(cfgs)
    groups = {}
    for c in cfgs:
        groups.setdefault((c["jobs"], c["store"], c["ser"]), []).append(c)
    ts = []
    for k in sorted(groups):
        for c in groups[k][:len(groups[k]) if chk.thorough else 4]:
            ts.append(dict(cfg=c, nd=c["datasets"], seed=chk.seed * 7919 + len(ts)))
    evs = [e for x in chk.drive("drv_eval", "run_eval", ts, task_timeout=240, crash_event=crash) for e in x]
    chk.cov["configurations"] = len(ts)
    chk.log(len(evs), "evaluations recorded")
    chk.report(chk.validate("EvaluationTrace", evs, per_shard=30), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

"""C17: model selection and summaries."""
import random

import core


def project(e):
    r = {k: e[k] for k in ("op", "seed", "cfg", "err", "score", "lower", "means", "chosen", "combos", "configured", "usable", "want", "found") if k in e}
    if e["op"] == "summary":
        r.update(rows=e["rows"][:6], groups=e["groups"][:3])
    return r


def run(chk):
    chk.model("SelectionMC", cfg="SelectionMC_thorough" if chk.thorough else "SelectionMC")
    chk.model("SummaryMC", cfg="SummaryMC_thorough" if chk.thorough else "SummaryMC")
    rnd = random.Random(chk.seed)
    cfgs = [c for c in sorted(chk.behaviours("EvaluationGen"), key=str) if not c["gc"] and c["timeout"] == "default"]
    rnd.shuffle(cfgs)
    seed = iter(range(chk.seed * 104729, chk.seed * 104729 + 10 ** 7))
    sel = [dict(cfg=c, nd=1, seed=next(seed)) for c in (cfgs * 6 if chk.thorough else cfgs[:72])]
    real = [dict(cfg=c, nd=c["datasets"], seed=next(seed)) for c in [c for c in cfgs if c["store"] != "memory" and c["ser"] == "json"][:(None if chk.thorough else 12)]]
    cases = sorted(chk.behaviours("SummaryGen"), key=str)
    rnd.shuffle(cases)
    syn = [dict(case=c, seed=next(seed)) for c in (cases if chk.thorough else cases[:400])]
    evs = [e for x in chk.drive("drv_eval", "run_select", sel, task_timeout=240) for e in x]
    evs += [e for x in chk.drive("drv_eval", "run_summary_real", real, task_timeout=240) for e in x]
    evs += [e for x in chk.drive("drv_eval", "run_summary", syn, task_timeout=240) for e in x]
    chk.cov["selections"], chk.cov["summaries"] = len(sel), len(real) + len(syn)
    chk.log(len(evs), "events recorded")
    chk.report(chk.validate("SelectionTrace", evs, per_shard=80), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

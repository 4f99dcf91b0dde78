"""C21: wrapped classifiers."""
import random

import core


def project(e):
    return {k: e[k] for k in e if k in ("op", "kind", "seed", "err", "acts", "what", "clause", "dim", "frac", "predict", "proba", "copied", "independent", "params")} | (
        {"after": e["after"][-1:]} if e["op"] == "life cycle" else {})


def run(chk):
    chk.model("OSClassifierMC")
    chk.model_fails("OSClassifierMC", "OSClassifierNoRebuild", "ObjectsFollowParameters")
    rnd = random.Random(chk.seed)
    seqs = [s for s in sorted(chk.behaviours("OSClassifierGen"), key=str) if any(a["op"] == "fit" for a in s) and (len(s) > 2 or s[-1]["op"] == "fit")]
    rnd.shuffle(seqs)
    n = 8 if chk.thorough else 1
    life = [dict(acts=s, seed=chk.seed * 7919 + i) for i, s in enumerate(seqs * (2 * n) if chk.thorough else seqs[:900])]
    tools = [dict(kind=k, seed=chk.seed * 31 + i) for k in ("pipeline", "cross validation", "grid search", "score") for i in range(25 * n)]
    mlps = [dict(seed=chk.seed * 17 + i) for i in range(60 * n)]
    evs = [e for f, ts in (("run_life", life), ("run_tool", tools), ("run_mlp", mlps)) for x in chk.drive("drv_osclf", f, ts) for e in x]
    chk.cov["life cycles"], chk.cov["tools"], chk.cov["networks"] = len(life), len(tools), len(mlps)
    chk.log(len(evs), "events recorded")
    chk.report(chk.validate("OSClassifierTrace", evs, per_shard=60), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

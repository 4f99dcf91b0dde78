"""C13: the evaluation cache."""
import random

import core
import drv_cache

FINAL = [{"op": "run", "x": 1, "os": "all", "cls": "all", "clean": "none", "crash": "no"}, {"op": "run", "x": 2, "os": "all", "cls": "all", "clean": "none", "crash": "no"}]


def project(e):
    return {k: e[k] for k in ("seed", "ser", "variation", "n", "asked", "want", "made", "served", "right", "out", "err", "key", "how", "left", "torn") if k in e}


def run(chk):
    chk.model("CacheMC", cfg="CacheMC_thorough" if chk.thorough else "CacheMC", timeout=850)
    chk.model_fails("CacheMC", "CacheNoContext", "ServedRight")
    rnd = random.Random(chk.seed)
    pairs = sorted(chk.behaviours("CacheGen"), key=str)
    longs = chk.simulate("CacheGen", "CacheSim", num=2000 if chk.thorough else 150, depth=11, seed=chk.seed)
    chk.cov["generated_histories"] = len(pairs) + len(longs)
    rnd.shuffle(pairs)
    if not chk.thorough:    # evenly over the kinds of operations, damages after stored results preferred
        kinds = {}
        for c in pairs:
            kinds.setdefault(tuple(o["op"] for o in c["ops"]), []).append(c)
        pairs = [c for k in sorted(kinds) for c in kinds[k][:40 if k[0] in ("run", "job") and k[1] == "damage" else 30 if set(k) <= {"run", "job"} else 6]]
    ts = []
    nvar = len(drv_cache.VARIATIONS)
    for j, c in enumerate(pairs + longs):
        ops = [dict(o) for o in c["ops"]]
        par = j % (20 if chk.thorough else 45) == 0
        for o in ops:
            o.setdefault("cls", "all")
            o.pop("salt", None)
            if par and o["op"] == "run" and o["crash"] == "no":
                o["n_jobs"] = 2
        ts.append(dict(seed=chk.seed * 100003 + j, ser=["json", "pickle"][j % 2], variation=drv_cache.VARIATIONS[(j // 2) % nvar],
                       ops=ops + [dict(o, n_jobs=2) if par else o for o in FINAL]))
    groups = [g for g in chk.drive("drv_cache", "run_case", ts, task_timeout=200) if g]
    chk.log(sum(len(g) for g in groups), "operations recorded in", len(groups), "histories")
    outs = {}
    for g in groups:
        for e in g:
            outs[f"{e['op']} {e.get('out', '')}".strip()] = outs.get(f"{e['op']} {e.get('out', '')}".strip(), 0) + 1
    chk.cov["operations"] = outs
    chk.report(chk.validate("CacheTrace", groups), project)
    chk.sample(outs)
    for g in groups[::max(1, len(groups) // 3)]:
        chk.sample([project(e) for e in g][1:3])


if __name__ == "__main__":
    core.main(run)

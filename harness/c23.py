"""C23: composite samplers equal the composition of their parts."""
import collections

import core

WEIGHTS = {"combine": 9, "graph": 4, "polynomial": 4, "mesh": 2, "curve": 2, "nothing": 1, "ipf": 6, "rsb": 3, "msyn": 3, "gazzah": 2, "append": 2}


def project(e):
    return {k: v for k, v in e.items() if k in ("op", "seed", "attempt", "name", "topology", "params", "voting", "err", "option", "raised", "p", "folds", "K", "share")}


def run(chk):
    chk.model("CompositeMC", "CompositeMC_thorough" if chk.thorough else "CompositeMC")
    chk.model_fails("CompositeMC", "CompositeUnguarded", "ENNKeepsBalance")
    chk.model("PartitionFilterMC", "PartitionFilterMC_thorough" if chk.thorough else "PartitionFilterMC")
    chk.model_fails("PartitionFilterMC", "PartitionFilterStrict", "<>Terminates")
    n = 40 if not chk.thorough else 500
    ts = [dict(op=op, seed=chk.seed * 100003 + 7919 * i + j) for i, (op, w) in enumerate(sorted(WEIGHTS.items())) for j in range(n * w)]
    evs = [e for x in chk.drive("drv_composite", "run_case", ts) for e in x]
    chk.log(len(evs), "calls recorded", dict(collections.Counter(e["op"] for e in evs)))
    for op, w in WEIGHTS.items():
        if sum(e["op"] == op for e in evs) < n * w // 3:
            raise core.MachineryError(f"too few cases of {op}")
    chk.report(chk.validate("CompositeTrace", evs), project)
    seen = set()
    for e in evs:
        if e["op"] not in seen:
            seen.add(e["op"])
            chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

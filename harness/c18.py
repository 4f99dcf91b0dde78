"""C18: registry queries."""
import core


def project(e):
    return {k: v for k, v in e.items() if k != "reg"}


def run(chk):
    qs = sorted(chk.behaviours("QueriesMC"), key=str)
    chk.cov["queries"] = len(qs)
    if not chk.thorough:   # every second of the filter queries, all others
        qs = [q for i, q in enumerate(qs) if q["kind"] != "simplex" or i % 3 == chk.seed % 3]
    nproc = 8
    ts = [dict(queries=qs[i::nproc], seed=chk.seed * 100 + i, combs=25 if not chk.thorough else 200) for i in range(nproc)]
    res = chk.drive("drv_queries", "run_case", ts)
    evs = [e for x in res for e in x]
    chk.log(len(evs), "queries recorded")
    chk.report(chk.validate("QueriesTrace", res, shards=8), project)
    for e in evs[1::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

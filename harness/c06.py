"""C06: parameters round-trip."""
import core
import drv_params as P


def project(e):
    r = {k: e.get(k) for k in ("op", "cls", "seed", "params", "comb", "err", "rerr", "json", "dig", "dig2", "dig3", "dig4")}
    if e["op"] == "build" and not e["err"]:
        rep = dict(map(tuple, e["reported"]))
        r["unreported"] = [[k, v, rep.get(k)] for k, v in e["expected"] if rep.get(k) != v]
        r["missing"] = [a for a in e["args"] if a not in e["repnames"]]
        r["changed"] = [x for x in e["after"] if x not in e["reported"]]
    return r


def run(chk):
    chk.model("ParamsMC")
    ts = P.tasks(chk.seed, *((14, 40, 6) if not chk.thorough else (80, 2000, 60)))
    evs = [e for r in chk.drive("drv_params", "run_case", ts, crash_event=P.crash) for e in r]
    for e in evs:
        if e.get("err"):
            for k in ("expected", "args", "repnames", "reported", "after"):
                e.setdefault(k, [])
    chk.log(len(evs), "reports recorded")
    bad = chk.validate("ParamsTrace", evs)
    chk.report(bad, project)
    for e in evs[:400:100]:
        chk.sample(project(e))
    chk.cov["classes"] = len({e["cls"] for e in evs})
    chk.cov["behaviour_compared"] = sum(1 for e in evs if e.get("dig"))


if __name__ == "__main__":
    core.main(run)

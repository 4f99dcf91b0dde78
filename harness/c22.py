"""C22: parameter domains."""
import core


def run(chk):
    cases = chk.behaviours("ParamDomainsMC")
    jobs = sorted({c["p"] for c in cases if c["p"].endswith(".n_jobs")})
    cases += [dict(p=p, v=None, num=True) for p in jobs]
    cases += [dict(p="hidden_range", v=[a, b], num=False) for a in (-1, 0, 1, 3) for b in (-1, 0, 1, 9)]
    cases.sort(key=lambda c: (c["p"], str(c["v"])))
    n = 8
    evs = [e for r in chk.drive("drv_domain", "run_case", [dict(cases=cases[i::n]) for i in range(n)]) for e in r]
    chk.log(len(cases), "probes", len(evs), "constructions")
    bad = chk.validate("ParamDomainsTrace", evs, shards=2)
    chk.report(bad)
    for e in evs[:400:100]:
        chk.sample(e)
    chk.cov["parameters"] = len({e["p"] for e in evs})


if __name__ == "__main__":
    core.main(run)

"""C10: undersampling."""
import core


def project(e):
    return {k: e[k] for k in ("cls", "seed", "kind", "mode", "over", "err", "errmsg", "src")} | {"n_in": len(e["yin"]), "n_out": len(e["yout"])}


def run(chk):
    chk.model("UndersampleMC")
    n = 700 if not chk.thorough else 8000
    ts = [dict(cls=c, seed=chk.seed * 100003 + 17 * j) for j in range(n) for c in ("RandomUndersampling", "OversamplingDrivenUndersampling")]
    evs = [e for x in chk.drive("drv_under", "run_case", ts) for e in x]
    chk.log(len(evs), "calls recorded")
    bad = chk.validate("UndersampleTrace", evs)
    chk.report(bad, project)
    for e in evs[:800:200]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

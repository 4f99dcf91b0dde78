"""C01 extensive contract, C02 quota, C03 boxes, C04 purity and well-formedness."""
import core
import drv_sampler as D
import data
import drv_place as P


def project(e):
    return {k: e[k] for k in ("cls", "seed", "entry", "kind", "layout", "params", "err", "where", "errmsg")} | {
        "n_in": len(e["yin"]), "n_out": len(e["yout"])}


def run(chk):
    chk.model("SamplerMC")
    full, secs = (40, 5) if not chk.thorough else (400, 80)
    kw = {}
    ts = D.tasks(chk.seed, full, secs, **kw)
    if chk.pid in ("C01", "C02", "C03"):
        ts = [t for t in ts if t["cls"] != "NoSMOTE"] + [t for t in ts if t["cls"] == "NoSMOTE"][:3]
    evs = [e for r in chk.drive("drv_sampler", "run_case", ts, crash_event=D.crash) for e in r]
    chk.log(len(evs), "calls recorded")
    bad = chk.validate("SamplerTrace", evs, env_vars={"PROP": chk.pid})
    chk.report(bad, project)
    if chk.pid == "C03":   # the segments and hulls of SMOTE, exactly
        chk.model("PlacementMC", "PlacementMC_thorough" if chk.thorough else "PlacementMC")
        pl = [e for x in chk.drive("drv_place", "run_case", P.tasks(chk.seed + 500, 250 if not chk.thorough else 4000, ["SMOTE"])) for e in x]
        chk.report(chk.validate("PlacementTrace", pl), P.project)
        chk.cov["smote_samples_placed"] = sum(len(e["pts"]) for e in pl)
    for e in evs[:200:50]:
        chk.sample(project(e))
    chk.cov["classes"] = len({e["cls"] for e in evs})
    chk.cov["calls_raising"] = sum(1 for e in evs if e["err"])
    chk.cov["calls_generating"] = sum(1 for e in evs if len(e["yout"]) > len(e["yin"]))


if __name__ == "__main__":
    core.main(run)

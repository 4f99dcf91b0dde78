"""C24: rule based oversamplers place samples only where their rule allows."""
import collections

import core
import drv_place as D


def run(chk):
    chk.model("PlacementMC", "PlacementMC_thorough" if chk.thorough else "PlacementMC")
    chk.model_fails("PlacementMC", "PlacementCareless", "Sound")
    ts = D.tasks(chk.seed, 36 if not chk.thorough else 500)
    evs = [e for x in chk.drive("drv_place", "run_case", ts) for e in x]
    chk.log(len(evs), "calls recorded", sum(len(e["pts"]) for e in evs), "samples")
    chk.report(chk.validate("PlacementTrace", evs), D.project)
    calls = collections.Counter(e["cls"] for e in evs)
    missing = [c for c in D.CLASSES if not calls[c]]
    if missing:
        raise core.MachineryError(f"no calls of {missing}")
    chk.cov["classes"] = len(calls)
    chk.cov["samples_placed"] = sum(len(e["pts"]) for e in evs)
    chk.cov["calls_placing"] = dict(collections.Counter(e["cls"] for e in evs if e["nsyn"]))
    seen = set()
    for e in evs:
        if e["cls"] not in seen and e["nsyn"]:
            seen.add(e["cls"])
            chk.sample(D.project(e))


if __name__ == "__main__":
    core.main(run)

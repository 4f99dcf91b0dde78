"""C19: the simplex sampling core."""
import core


def project(e):
    return {k: v for k, v in e.items()}


def run(chk):
    chk.model("SimplexMC", cfg="SimplexMC_thorough" if chk.thorough else "SimplexMC")
    n = 700 if not chk.thorough else 12000
    seeds = [chk.seed * 1000003 + 7 * i for i in range(n)]
    ts = [dict(seeds=seeds[i::32]) for i in range(32)]
    evs = [e for x in chk.drive("drv_simplex", "run_cases", ts) for e in x]
    chk.log(len(evs), "calls recorded")
    chk.report(chk.validate("SimplexTrace", evs), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

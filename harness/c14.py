"""C14: the timeout process pool."""
import random

import core

OKS = ["value", "value", "none", "slow"]
LONG = "long"    # 3 seconds, in the scenarios with a limit
FAILS = ["ValueError", "SystemExit", "exit", "kill", "unpicklable", "partial"]
HANGS = ["sleep", "stubborn"]
LIMIT = 12     # seconds given to instant jobs beside hanging ones (180 s)


def project(e):
    return {k: e[k] for k in ("seed", "round", "k", "kind", "beh", "gates", "timeout", "apply", "err", "res", "log") if k in e}


def concrete(c, rnd, gated):
    beh = [rnd.choice(OKS) if x == "ok" else "big" if x == "big" else rnd.choice(FAILS) if x == "fail" else rnd.choice(HANGS) for x in c["kind"]]
    gates = [None] * len(beh)
    if gated:
        for a, b in zip(c["order"], c["order"][1:]):
            gates[b - 1] = a
    return dict(kind=c["kind"], beh=beh, gates=gates)


def crash(t, why):
    rd = t["rounds"][0]
    return [{"op": "pool", "seed": t["seed"], "round": 0, "k": t["k"], "kind": rd["kind"], "beh": rd["beh"], "gates": [g or 0 for g in rd["gates"]], "timeout": str(t["timeout"]),
             "apply": t["apply"], "err": "no termination: " + why, "res": [], "log": [], "pids_ok": False, "left": 0, "kept": True}]


def run(chk):
    chk.model("Pool", cfg="PoolLive")
    cases = sorted(chk.behaviours("PoolMC", cfg="PoolMC_thorough" if chk.thorough else "PoolMC", timeout=850), key=str)
    chk.cov["behaviours_of_the_model"] = len(cases)
    rnd = random.Random(chk.seed)
    calm = [c for c in cases if "hang" not in c["kind"]]
    hang = [c for c in cases if "hang" in c["kind"]]
    by_k = {}
    for c in calm:
        by_k.setdefault(c["k"], []).append(c)
    ts = []
    for j in range(120 if not chk.thorough else 1500):
        c = calm[(j * 7 + chk.seed) % len(calm)]
        rounds = [concrete(c, rnd, True)]
        while rnd.random() < 0.4 and len(rounds) < 3:
            rounds.append(concrete(rnd.choice(by_k[c["k"]]), rnd, True))
        if rnd.random() < 0.1:
            rounds.insert(rnd.randint(0, 1), dict(kind=[], beh=[], gates=[]))
        ts.append(dict(seed=j, k=c["k"], rounds=rounds, timeout=rnd.choice([-1, None, 0, 100, "default"]), apply=False))
    for j in range(24 if not chk.thorough else 200):
        # more jobs than one wave, the workers take them in turn
        n, k = rnd.randint(5, 12), rnd.choice([1, 2, 3, 4, 8])
        kind = [rnd.choice(["ok", "ok", "big", "fail"]) for _ in range(n)]
        ap = j % 2 == 1
        if ap:
            kind = [x for x in kind]
        rd = concrete(dict(kind=kind, order=[]), rnd, False)
        if ap:
            rd["beh"] = ["value" if b == "none" else b for b in rd["beh"]]
        ts.append(dict(seed=1000 + j, k=k, rounds=[rd], timeout=rnd.choice([-1, None, 200]), apply=ap))
    evs = [e for x in chk.drive("drv_pool", "run_case", ts, task_timeout=100, crash_event=crash, give_up=1) for e in x]
    chk.log(len(evs), "executions without time outs")
    hs = []
    for j in range(16 if not chk.thorough else 100):
        c = hang[(j * 31 + chk.seed * 5) % len(hang)]
        if sum(x == "hang" for x in c["kind"]) > c["k"]:
            c = dict(c, k=sum(x == "hang" for x in c["kind"]))
        rd = concrete(c, rnd, False)
        extra = [rnd.choice(["ok", "fail"]) for _ in range(rnd.randint(0, 2))]
        if extra:
            rd = concrete(dict(kind=c["kind"] + extra, order=[]), rnd, False)
        rd["beh"] = [LONG if b in ("slow", "value") and rnd.random() < 0.5 else b for b in rd["beh"]]
        hs.append(dict(seed=2000 + j, k=c["k"], rounds=[rd], timeout=LIMIT, apply=False))
    evs += [e for x in chk.drive("drv_pool", "run_case", hs, nproc=16, task_timeout=120, crash_event=crash, give_up=1) for e in x]
    chk.log(len(evs), "executions recorded")
    chk.report(chk.validate("PoolTrace", evs), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

"""C15: performance scores."""
import itertools
import random

import core


def project(e):
    return {k: v for k, v in e.items()}


def run(chk):
    chk.model("MetricsMC", cfg="MetricsMC_thorough" if chk.thorough else "MetricsMC")
    rnd = random.Random(chk.seed)
    ts = []
    # all confusion matrices of small totals, a sample of larger ones
    top = 5 if not chk.thorough else 8
    for a, b, c, d in itertools.product(range(top), repeat=4):
        if a + b and c + d:
            ts.append(dict(op="labels", a=dict(tp=a, fn=b, tn=c, fp=d)))
    for _ in range(400 if not chk.thorough else 8000):
        p, n = rnd.randint(1, 20), rnd.randint(1, 20)
        a, c = rnd.randint(0, p), rnd.randint(0, n)
        ts.append(dict(op="labels", a=dict(tp=a, fn=p - a, tn=c, fp=n - c)))
    # large counts
    for _ in range(300 if not chk.thorough else 4000):
        p, n = rnd.randint(1, 20), rnd.randint(1, 20)
        a, c = rnd.randint(0, p), rnd.randint(0, n)
        ts.append(dict(op="scaled", a=dict(tp=a, fn=p - a, tn=c, fp=n - c), e=rnd.randint(1, 7)))
    # all label and prediction vectors of small length, both roles
    for n in range(2, 5 if not chk.thorough else 6):
        for y in itertools.product((0, 1), repeat=n):
            for r in itertools.product((0, 1), repeat=n):
                ts.append(dict(op="atoms", y=y, pred=r, m=(sum(y) + sum(r)) % 2))
    for _ in range(100):
        la, lb = rnd.choice([(0, 1), (-1, 1), (5, 7), (2, 1)])
        n = rnd.randint(2, 40)
        ts.append(dict(op="atoms", y=[rnd.choice([la, lb]) for _ in range(n)], pred=[rnd.choice([la, lb]) for _ in range(n)], m=rnd.choice([la, lb])))
    # thresholds: all small probability vectors
    for n in range(1, 6 if not chk.thorough else 8):
        for p in itertools.product((0, 1, 2), repeat=n):
            ts.append(dict(op="predict", p=[4 * v for v in p], q=8))
    # probabilities
    for k in range(1500 if not chk.thorough else 20000):
        n = rnd.choice([2, 3, 4, 5, 6, 9, 10, 11, 14, 15, 20, 24, 25, 30, 39, 40])
        y = [rnd.randint(0, 1) for _ in range(n)]
        i, j = rnd.sample(range(n), 2)
        y[i], y[j] = 0, 1
        if sum(y) > 20 or n - sum(y) > 20:
            y = [1] * 20 + [0] * 20
            n = 40
        rnd.shuffle(y)
        q = rnd.choice([2, 4, 8, 16, 16])
        vals = list(range(0, q + 1)) if rnd.random() < 0.7 else [rnd.randint(0, q), q // 2, rnd.randint(1, q)]
        p = [rnd.choice(vals) for _ in range(n)]
        mode = rnd.random()
        if mode < 0.15:
            p = [q if v else 0 for v in y]
        elif mode < 0.25:
            p = [0] * n
        elif mode < 0.3:
            p = [q] * n
        ts.append(dict(op="prob", y=y, p=p, q=q, m=1) if k % 3 == 0 else dict(op="all", y=y, p=p, q=q, m=1, f=k % 2))
    shards = [dict(cases=ts[i::16]) for i in range(16)]
    evs = [e for x in chk.drive("drv_metrics", "run_cases", shards) for e in x]
    chk.log(len(evs), "score calls recorded")
    chk.report(chk.validate("MetricsTrace", evs), project)
    for e in evs[::max(1, len(evs) // 4)]:
        chk.sample(project(e))


if __name__ == "__main__":
    core.main(run)

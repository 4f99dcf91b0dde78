"""C11: foldings."""
import random

import core


def project(e):
    return {k: e[k] for k in ("seed", "via", "ops", "ser", "ns", "nr", "err", "y")}


def run(chk):
    seqs = sorted(chk.behaviours("FoldingMC"))
    chk.cov["operation_sequences"] = len(seqs)
    rnd = random.Random(chk.seed)
    n = 260 if not chk.thorough else len(seqs) * 2
    ts = []
    for j in range(n):
        ops = seqs[rnd.randrange(len(seqs))] if not chk.thorough else seqs[j % len(seqs)]
        ns, nr = rnd.choice([(2, 1), (2, 2), (3, 2), (5, 2), (4, 3), (12, 1), (2, 11)])
        ts.append(dict(seed=chk.seed * 100003 + j, ops=ops, ns=ns, nr=nr, ser=["json", "pickle"][j % 2], dtype=rnd.choice(["float", "float", "int"])))
    res = chk.drive("drv_folding", "run_case", ts)
    chk.log(sum(map(len, res)), "listings recorded")
    bad = chk.validate("FoldingTrace", res, per_shard=80)
    chk.report(bad, project)
    for r in res[:60:20]:
        chk.sample(project(r[-1]))


if __name__ == "__main__":
    core.main(run)

"""P04: decomposition of the domain."""
import random

import mesh
from app import parallel


def layouts(np, ndim):
    """every layout the user may impose, partly or fully"""
    out = [(0, 0, 0)]
    for a in range(0, np + 1):
        for b in range(0, np + 1 if ndim >= 2 else 1):
            for e in range(0, np + 1 if ndim == 3 else 1):
                p = [x for x in (a, b, e)[:ndim]]
                q = 1
                for x in p:
                    q *= x or 1
                if np % q == 0 and (0 in p or q == np) and any(p):
                    out.append(tuple(p + [0] * (3 - ndim)))
    return out


def check(c):
    rng = random.Random(c.seed)
    for nd, mn, mp in ((1, c.pick(16, 60), c.pick(16, 60)), (2, c.pick(5, 7), c.pick(5, 7)), (3, c.pick(3, 4), c.pick(3, 4))):
        c.model("DomainModel", name=f"DomainModel{nd}", constants={"MaxN": mn, "MaxP": mp, "ND": nd}, invariants=("Good",))
    tasks = []
    for ndim in (1, 2, 3):
        exe = mesh.exe(ndim)
        for np in c.pick((1, 2, 3, 4, 5, 6, 8), tuple(range(1, 17))):
            jobs = []
            for lay in layouts(np, ndim):
                p = [x or 1 for x in lay[:ndim]]
                top = c.pick({1: 26, 2: 7, 3: 4}[ndim], {1: 40, 2: 12, 3: 7}[ndim])
                if ndim == 1:
                    sizes = [(n, 1, 1) for n in list(range(1, top)) + [64, 97, rng.randint(100, 1200)]]
                else:
                    sizes = [tuple(rng.randint(1, top) if d < ndim else 1 for d in range(3)) for _ in range(c.pick(6, 25))]
                    sizes += [tuple((p[d] if d < ndim else 1) * rng.randint(1, 3) + (rng.randint(0, p[d] - 1) if d < ndim else 0) if d < ndim else 1 for d in range(3)) for _ in range(3)]
                if ndim < 3:
                    # directions that are not simulated may hold one cell only in practice; they are never split
                    pass
                for n in sizes:
                    jobs.append((n, lay, rng.choice((2, 2, 3))))
            tasks.append((ndim, np, exe, jobs))

    def one(t):
        ndim, np, exe, jobs = t
        res = mesh.run_jobs(c, exe, np, ["grid %d %d %d %d %d %d %d none" % (n + lay + (ng,)) for n, lay, ng in jobs], f"{ndim}-{np}")
        recs = []
        for (n, lay, ng), blocks in zip(jobs, res):
            refused = any("error" in b for b in blocks)
            # fewer cells than processes in a direction: blocks would be empty; a refusal is as good
            asked = list(lay)
            few = any(n[d] < max(np if not any(lay) else 1, 1) and n[d] < np for d in range(ndim))
            recs.append({"n": n, "asked": asked, "ndim": ndim, "ng": ng, "refused": refused, "mayrefuse": few, "blocks": [] if refused else blocks, "np": np})
        return recs

    recs = [r for rs in parallel(one, tasks, 2) for r in rs]
    c.sample({"grid": {k: recs[40][k] for k in ("n", "asked", "np")}, "blocks": [[b["min"], b["max"]] for b in recs[40]["blocks"]]})
    c.conform("DomainTrace", recs, what="decompositions of the real Grid")
    c.assumptions = ["cells are assigned at construction only; empty blocks are allowed when there are more processes than cells"]
